// Stand-in for '@metaplex-foundation/mpl-toolbox': the associated token address.
import { publicKey } from './serializers';

export const findAssociatedTokenPda = (c: any, seeds: any) => {
  const prog = seeds.tokenProgramId ?? 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
  const k = (v: any) => publicKey().serialize(v);
  return c.eddsa.findPda('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL', [k(seeds.owner), k(prog), k(seeds.mint)]);
};
