export const utf8 = {
  decode: (b: any): string => new TextDecoder('utf-8').decode(b),
  encode: (s: string): Uint8Array => new TextEncoder().encode(s),
};
import { b58dec, b58enc } from './web3';
export const bs58 = { encode: b58enc, decode: b58dec };
