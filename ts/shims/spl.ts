import { BN } from './bn';
import { PublicKey, SYSVAR_RENT_PUBKEY, TransactionInstruction } from './web3';
export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const NATIVE_MINT = new PublicKey('So11111111111111111111111111111111111111112');
export function unpackAccount(address: PublicKey, ai: any): any {
  if (!ai) throw new Error('TokenAccountNotFoundError');
  return {
    address,
    mint: new PublicKey(ai.data.subarray(0, 32)),
    owner: new PublicKey(ai.data.subarray(32, 64)),
    amount: new BN(ai.data.subarray(64, 72), 'le').n,
  };
}
export function createInitializeAccount3Instruction(account: PublicKey, mint: PublicKey, owner: PublicKey): TransactionInstruction {
  return new TransactionInstruction({
    programId: TOKEN_PROGRAM_ID,
    keys: [
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: mint, isSigner: false, isWritable: false },
    ],
    data: Buffer.concat([Buffer.from([18]), owner.toBuffer()]),
  });
}
export function createCloseAccountInstruction(account: PublicKey, dest: PublicKey, auth: PublicKey): TransactionInstruction {
  return new TransactionInstruction({
    programId: TOKEN_PROGRAM_ID,
    keys: [
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: dest, isSigner: false, isWritable: true },
      { pubkey: auth, isSigner: true, isWritable: false },
    ],
    data: Buffer.from([9]),
  });
}
export function createAccount(): never {
  throw new Error('not modelled: createAccount');
}
export { SYSVAR_RENT_PUBKEY };
