export default function copy<T>(o: T): T {
  if (o === null || typeof o !== 'object') return o;
  if (Array.isArray(o)) return o.map((x) => copy(x)) as any;
  const r = Object.create(Object.getPrototypeOf(o));
  for (const k of Object.keys(o as any)) r[k] = copy((o as any)[k]);
  return r;
}
