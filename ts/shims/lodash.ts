export const uniq = (a: any[]): any[] => Array.from(new Set(a));
export const range = (a: number, b?: number): number[] => {
  const [s, e] = b === undefined ? [0, a] : [a, b];
  return Array.from({ length: Math.max(0, e - s) }, (_x, i) => s + i);
};
export const maxBy = (a: any[], f: any): any => {
  let best: any;
  let bv: any;
  for (const x of a || []) {
    const v = f(x);
    if (v != null && (best === undefined || v > bv)) {
      best = x;
      bv = v;
    }
  }
  return best;
};
export const mapValues = (o: any, f: any): any => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, f(v, k, o)]));
export const groupBy = (a: any[], f: any): any => {
  const r: any = {};
  for (const x of a) (r[typeof f === 'function' ? f(x) : x[f]] ||= []).push(x);
  return r;
};
export const chunk = (a: any[], n: number): any[][] => {
  const r: any[][] = [];
  for (let i = 0; i < a.length; i += n) r.push(a.slice(i, i + n));
  return r;
};
const plain = (x: any): boolean => {
  if (x === null || typeof x !== 'object') return false;
  const p = Object.getPrototypeOf(x);
  return p === null || p === Object.prototype;
};
export const merge = (dst: any, ...srcs: any[]): any => {
  for (const s of srcs) {
    for (const k in s) {
      const v = s[k];
      if (v === undefined && k in dst) continue;
      if (plain(v)) dst[k] = merge(plain(dst[k]) ? dst[k] : {}, v);
      else if (Array.isArray(v)) dst[k] = merge(Array.isArray(dst[k]) ? dst[k] : [], v);
      else dst[k] = v;
    }
  }
  return dst;
};
