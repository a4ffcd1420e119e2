use frame_support::dispatch::DispatchClass;
use frame_support::weights::{constants, Weight};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use sp_runtime::{traits::Bounded, Perbill};
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Default)]
pub struct PerDispatchClass<T> {
	normal: T,
	operational: T,
	mandatory: T,
}
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self {
		Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) }
	}
	pub fn get(&self, c: DispatchClass) -> &T {
		match c {
			DispatchClass::Normal => &self.normal,
			DispatchClass::Operational => &self.operational,
			DispatchClass::Mandatory => &self.mandatory,
		}
	}
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T {
		match c {
			DispatchClass::Normal => &mut self.normal,
			DispatchClass::Operational => &mut self.operational,
			DispatchClass::Mandatory => &mut self.mandatory,
		}
	}
}
#[derive(Debug, Clone, PartialEq)]
pub struct BlockLength {
	pub max: PerDispatchClass<u32>,
}
impl Default for BlockLength {
	fn default() -> Self {
		Self::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75))
	}
}
impl BlockLength {
	pub fn max(max: u32) -> Self {
		Self { max: PerDispatchClass::new(|_| max) }
	}
	pub fn max_with_normal_ratio(max: u32, normal: Perbill) -> Self {
		Self { max: PerDispatchClass::new(|c| if c == DispatchClass::Normal { normal * max } else { max }) }
	}
}
#[derive(Debug, Clone, PartialEq)]
pub struct WeightsPerClass {
	pub base_extrinsic: Weight,
	pub max_extrinsic: Option<Weight>,
	pub max_total: Option<Weight>,
	pub reserved: Option<Weight>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct BlockWeights {
	pub base_block: Weight,
	pub max_block: Weight,
	pub per_class: PerDispatchClass<WeightsPerClass>,
}
impl Default for BlockWeights {
	fn default() -> Self {
		Self::with_sensible_defaults(Weight::from_parts(constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX), Perbill::from_percent(75))
	}
}
impl BlockWeights {
	pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
		self.per_class.get(c)
	}
	pub fn simple_max(block_weight: Weight) -> Self {
		Self::builder()
			.base_block(Weight::zero())
			.for_class(DispatchClass::all(), |w| w.base_extrinsic = Weight::zero())
			.for_class(DispatchClass::non_mandatory(), |w| w.max_total = block_weight.into())
			.build_or_panic()
	}
	pub fn with_sensible_defaults(expected: Weight, normal: Perbill) -> Self {
		let n = normal * expected;
		Self::builder()
			.for_class(DispatchClass::Normal, |w| w.max_total = n.into())
			.for_class(DispatchClass::Operational, |w| {
				w.max_total = expected.into();
				w.reserved = (expected - n).into();
			})
			.avg_block_initialization(Perbill::from_percent(10))
			.build_or_panic()
	}
	pub fn builder() -> BlockWeightsBuilder {
		BlockWeightsBuilder {
			weights: BlockWeights {
				base_block: constants::BlockExecutionWeight::get(),
				max_block: Weight::zero(),
				per_class: PerDispatchClass::new(|c| {
					let v = if c == DispatchClass::Mandatory { None } else { Some(Weight::zero()) };
					WeightsPerClass { base_extrinsic: constants::ExtrinsicBaseWeight::get(), max_extrinsic: None, max_total: v, reserved: v }
				}),
			},
			init_cost: None,
		}
	}
}
pub trait IntoClasses {
	fn classes(self) -> Vec<DispatchClass>;
}
impl IntoClasses for DispatchClass {
	fn classes(self) -> Vec<DispatchClass> {
		vec![self]
	}
}
impl IntoClasses for &[DispatchClass] {
	fn classes(self) -> Vec<DispatchClass> {
		self.to_vec()
	}
}
pub struct BlockWeightsBuilder {
	weights: BlockWeights,
	init_cost: Option<Perbill>,
}
impl BlockWeightsBuilder {
	pub fn base_block(mut self, w: Weight) -> Self {
		self.weights.base_block = w;
		self
	}
	pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
		self.init_cost = Some(p);
		self
	}
	pub fn for_class(mut self, c: impl IntoClasses, f: impl Fn(&mut WeightsPerClass)) -> Self {
		for c in c.classes() {
			f(self.weights.per_class.get_mut(c))
		}
		self
	}
	pub fn build_or_panic(self) -> BlockWeights {
		let Self { mut weights, init_cost } = self;
		for c in DispatchClass::all() {
			weights.max_block = match weights.per_class.get(*c).max_total {
				Some(m) => m.max(weights.max_block),
				_ => weights.max_block,
			};
		}
		if let Some(i) = init_cost {
			let w = i * weights.max_block;
			for c in DispatchClass::all() {
				let p = weights.per_class.get_mut(*c);
				if p.max_extrinsic.is_none() && init_cost.is_some() {
					p.max_extrinsic = p.max_total.map(|x| x.saturating_sub(w)).map(|x| x.saturating_sub(p.base_extrinsic));
				}
			}
		}
		weights
	}
	pub fn build(self) -> Result<BlockWeights, ()> {
		Ok(self.build_or_panic())
	}
}
#[allow(dead_code)]
fn _u<T: Bounded>() {}
