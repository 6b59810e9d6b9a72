import { b58dec, b58enc } from './web3';
export const encode = b58enc;
export const decode = b58dec;
export default { encode: b58enc, decode: b58dec };
