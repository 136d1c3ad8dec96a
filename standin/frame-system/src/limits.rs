//! Block limits.
use frame_support::{
	dispatch::DispatchClass,
	weights::{
		constants::{BlockExecutionWeight, ExtrinsicBaseWeight},
		Weight,
	},
};
use sp_runtime::Perbill;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct BlockLength {
	pub max: [u32; 3],
}
impl BlockLength {
	pub fn max_with_normal_ratio(max: u32, normal: Perbill) -> Self {
		Self { max: [normal * max, max, max] }
	}
	pub fn max(max: u32) -> Self {
		Self { max: [max; 3] }
	}
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct WeightsPerClass {
	pub base_extrinsic: Weight,
	pub max_extrinsic: Option<Weight>,
	pub max_total: Option<Weight>,
	pub reserved: Option<Weight>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct BlockWeights {
	pub base_block: Weight,
	pub max_block: Weight,
	pub per_class: [WeightsPerClass; 3],
}
impl BlockWeights {
	pub fn builder() -> BlockWeightsBuilder {
		let class = |limited: bool| {
			let initial = limited.then(Weight::zero);
			WeightsPerClass { base_extrinsic: ExtrinsicBaseWeight::get(), max_extrinsic: None, max_total: initial, reserved: initial }
		};
		let weights = BlockWeights {
			base_block: BlockExecutionWeight::get(),
			max_block: Weight::zero(),
			per_class: [class(true), class(true), class(false)],
		};
		BlockWeightsBuilder { weights, init: None }
	}
	pub fn get(&self, class: DispatchClass) -> &WeightsPerClass {
		&self.per_class[slot(class)]
	}
}
fn slot(c: DispatchClass) -> usize {
	match c {
		DispatchClass::Normal => 0,
		DispatchClass::Operational => 1,
		DispatchClass::Mandatory => 2,
	}
}
pub trait Classes {
	fn slots(self) -> Vec<usize>;
}
impl Classes for DispatchClass {
	fn slots(self) -> Vec<usize> {
		vec![slot(self)]
	}
}
impl Classes for &[DispatchClass] {
	fn slots(self) -> Vec<usize> {
		self.iter().map(|c| slot(*c)).collect()
	}
}
pub struct BlockWeightsBuilder {
	weights: BlockWeights,
	init: Option<Perbill>,
}
impl BlockWeightsBuilder {
	pub fn base_block(mut self, w: Weight) -> Self {
		self.weights.base_block = w;
		self
	}
	pub fn for_class(mut self, c: impl Classes, f: impl Fn(&mut WeightsPerClass)) -> Self {
		for s in c.slots() {
			f(&mut self.weights.per_class[s]);
		}
		self
	}
	pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
		self.init = Some(p);
		self
	}
	pub fn build_or_panic(mut self) -> BlockWeights {
		// the largest class decides, plus what is reserved on top
		for c in self.weights.per_class.iter() {
			if let Some(m) = c.max_total {
				self.weights.max_block = self.weights.max_block.max(m);
			}
		}
		if let Some(r) = self.init {
			let init = r * self.weights.max_block;
			for c in self.weights.per_class.iter_mut() {
				if let (Some(m), None) = (c.max_total, c.max_extrinsic) {
					c.max_extrinsic = m.checked_sub(&init).and_then(|x| x.checked_sub(&c.base_extrinsic));
				}
			}
		}
		self.weights
	}
}
