//! One workload for every build configuration: C01.
use crate::Ctx;

pub fn c01(c: &mut Ctx) {
    let mut rng = c.rng("C01");
    let rounds = c.size(1, 8);
    for _ in 0..rounds {
        crate::binary::workload(c, &mut rng);
        for _ in 0..8 {
            crate::sparse::history(c, &mut rng, 12);
        }
        crate::sum::workload(c, &mut rng);
        for _ in 0..150 {
            crate::position::some(c, &mut rng);
        }
    }
    crate::map::run(c, 4 * rounds);
}
