use fuel_merkle::sum;
pub struct MTable;
impl Mappable for MTable {
    type Key = B32;
    type SetValue = sum::VerifNode;
    type GetValue = Self::SetValue;
}
type MDb = Db<B32, sum::VerifNode>;
type MTree = sum::MerkleTree<MTable, MDb>;
/// The sum tree over these leaves (fee, data).
fn msum(l: &[(u64, Vec<u8>)]) -> (u64, B32) {
    match l.len() {
        0 => (0, sha(&[])),
        1 => (l[0].0, sha(&[&[0], &l[0].0.to_be_bytes(), &l[0].1])),
        n => {
            let k = n.next_power_of_two() / 2;
            let (a, b) = (msum(&l[..k]), msum(&l[k..]));
            (a.0 + b.0, sha(&[&[1], &a.0.to_be_bytes(), &a.1, &b.0.to_be_bytes(), &b.1]))
        }
    }
}
