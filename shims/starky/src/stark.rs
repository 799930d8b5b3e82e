use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::packed::PackedField;
use plonky2::fri::structure::*;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;
use crate::config::StarkConfig;
use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;
pub struct LookupConfig { pub degree_bits: usize, pub num_zs: usize }
pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
    const COLUMNS: usize = <Self::EvaluationFrameTarget as StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>>::COLUMNS;
    const PUBLIC_INPUTS: usize = <Self::EvaluationFrameTarget as StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>>::PUBLIC_INPUTS;
    type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE> where FE: FieldExtension<D2, BaseField = F>, P: PackedField<Scalar = FE>;
    type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;
    fn eval_packed_generic<FE, P, const D2: usize>(&self, vars: &Self::EvaluationFrame<FE, P, D2>, yield_constr: &mut ConstraintConsumer<P>) where FE: FieldExtension<D2, BaseField = F>, P: PackedField<Scalar = FE>;
    fn eval_ext_circuit(&self, builder: &mut CircuitBuilder<F, D>, vars: &Self::EvaluationFrameTarget, yield_constr: &mut RecursiveConstraintConsumer<F, D>);
    fn constraint_degree(&self) -> usize;
    fn quotient_degree_factor(&self) -> usize { match self.constraint_degree().checked_sub(1) { Some(v) => 1.max(v), None => 0 } }
    fn num_quotient_polys(&self, config: &StarkConfig) -> usize { self.quotient_degree_factor() * config.num_challenges }
    fn requires_ctls(&self) -> bool { false }
    fn uses_lookups(&self) -> bool { false }
    fn fri_instance(&self, zeta: F::Extension, g: F, num_ctl_helpers: usize, num_ctl_zs: Vec<usize>, config: &StarkConfig, lookup_cfg: Option<&LookupConfig>) -> FriInstanceInfo<F, D> {
        let l = self.layout(num_ctl_helpers, num_ctl_zs, config, lookup_cfg);
        let mut batches = vec![FriBatchInfo { point: zeta, polynomials: l.1[0].clone() }, FriBatchInfo { point: zeta * F::Extension::from(g), polynomials: l.1[1].clone() }];
        if let Some(lc) = lookup_cfg { batches.push(FriBatchInfo { point: F::Extension::from(F::primitive_root_of_unity(lc.degree_bits).inverse()), polynomials: l.1[2].clone() }); }
        FriInstanceInfo { oracles: l.0, batches }
    }
    fn fri_instance_target(&self, builder: &mut CircuitBuilder<F, D>, zeta: ExtensionTarget<D>, g: F, num_ctl_helpers: usize, num_ctl_zs: usize, config: &StarkConfig, lookup_cfg: Option<&LookupConfig>) -> FriInstanceInfoTarget<D> {
        let l = self.layout(num_ctl_helpers, vec![num_ctl_zs], config, lookup_cfg);
        let zeta_next = { let gt = builder.constant_extension(g.into()); builder.mul_extension(gt, zeta) };
        let mut batches = vec![FriBatchInfoTarget { point: zeta, polynomials: l.1[0].clone() }, FriBatchInfoTarget { point: zeta_next, polynomials: l.1[1].clone() }];
        if let Some(lc) = lookup_cfg { let p = builder.constant_extension(F::Extension::from(F::primitive_root_of_unity(lc.degree_bits).inverse())); batches.push(FriBatchInfoTarget { point: p, polynomials: l.1[2].clone() }); }
        FriInstanceInfoTarget { oracles: l.0, batches }
    }
    #[doc(hidden)]
    fn layout(&self, _num_ctl_helpers: usize, _num_ctl_zs: Vec<usize>, config: &StarkConfig, lookup_cfg: Option<&LookupConfig>) -> (Vec<FriOracleInfo>, [Vec<FriPolynomialInfo>; 3]) {
        let zs = lookup_cfg.map_or(0, |l| l.num_zs);
        let q = self.num_quotient_polys(config);
        let o = |num_polys| FriOracleInfo { num_polys, blinding: false };
        let r = FriPolynomialInfo::from_range;
        (vec![o(Self::COLUMNS), o(zs), o(q)], [[r(0, 0..Self::COLUMNS), r(1, 0..zs), r(2, 0..q)].concat(), [r(0, 0..Self::COLUMNS), r(1, 0..zs)].concat(), r(1, 0..zs)])
    }
}
