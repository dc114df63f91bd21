// Stand-in for '@metaplex-foundation/mpl-token-metadata': the addresses it derives.
import { publicKey, string } from './serializers';

const ID = 'metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s';
export enum TokenStandard {
  NonFungible,
  FungibleAsset,
  Fungible,
  NonFungibleEdition,
  ProgrammableNonFungible,
  ProgrammableNonFungibleEdition,
}
export type TokenStandardArgs = TokenStandard;
const s = (v: string) => string({ size: 'variable' }).serialize(v);
const k = (v: any) => publicKey().serialize(v);
const find = (c: any, mint: any, ...more: Uint8Array[]) => c.eddsa.findPda(ID, [s('metadata'), k(ID), k(mint), ...more]);
export const findMetadataPda = (c: any, seeds: any) => find(c, seeds.mint);
export const findMasterEditionPda = (c: any, seeds: any) => find(c, seeds.mint, s('edition'));
export const findTokenRecordPda = (c: any, seeds: any) => find(c, seeds.mint, s('token_record'), k(seeds.token));
