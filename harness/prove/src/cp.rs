use binius_field::*;
use binius_math::{ArithCircuit, CompositionPoly};
#[derive(Clone, Copy, Debug)]
pub enum Cp {
	Sum2,
	Mul2,
	Cube2, // x^2 y + x
	Mul3,
	And3,  // x y + z
	CAnd3, // x y^2 + z
	Id1,
	Sq1,
}
use Cp::*;
impl Cp {
	pub fn nv(self) -> usize {
		match self {
			Id1 | Sq1 => 1,
			Sum2 | Mul2 | Cube2 => 2,
			_ => 3,
		}
	}
	pub fn deg(self) -> usize {
		match self {
			Sum2 | Id1 => 1,
			Mul2 | And3 | Sq1 => 2,
			_ => 3,
		}
	}
	pub fn ev<P: PackedField>(self, q: &[P]) -> P {
		match self {
			Id1 => q[0],
			Sq1 => q[0] * q[0],
			Sum2 => q[0] + q[1],
			Mul2 => q[0] * q[1],
			Cube2 => q[0] * q[0] * q[1] + q[0],
			Mul3 => q[0] * q[1] * q[2],
			And3 => q[0] * q[1] + q[2],
			CAnd3 => q[0] * q[1] * q[1] + q[2],
		}
	}
}
impl<P: PackedField> CompositionPoly<P> for Cp {
	fn n_vars(&self) -> usize {
		self.nv()
	}
	fn degree(&self) -> usize {
		self.deg()
	}
	fn binary_tower_level(&self) -> usize {
		0
	}
	fn expression(&self) -> ArithCircuit<P::Scalar> {
		let v = |i| ArithCircuit::var(i);
		match self {
			Id1 => v(0),
			Sq1 => v(0) * v(0),
			Sum2 => v(0) + v(1),
			Mul2 => v(0) * v(1),
			Cube2 => v(0) * v(0) * v(1) + v(0),
			Mul3 => v(0) * v(1) * v(2),
			And3 => v(0) * v(1) + v(2),
			CAnd3 => v(0) * v(1) * v(1) + v(2),
		}
	}
	fn evaluate(&self, q: &[P]) -> Result<P, binius_math::Error> {
		if q.len() != self.nv() {
			return Err(binius_math::Error::IncorrectQuerySize { expected: self.nv(), actual: q.len() });
		}
		Ok(self.ev(q))
	}
}
