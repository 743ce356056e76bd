// Stand-ins for the operators that bitflags generates for Style.
verus! {
use vstd::std_specs::ops::*;
impl BitXorSpecImpl for Style { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: Style) -> bool { true }
    open spec fn bitxor_spec(self, o: Style) -> Style { Style { bits: self.bits ^ o.bits } } }
impl std::ops::BitXor for Style { type Output = Style; #[verifier::external_body] fn bitxor(self, o: Style) -> Style { unimplemented!() } }
impl BitOrSpecImpl for Style { open spec fn obeys_bitor_spec() -> bool { true } open spec fn bitor_req(self, o: Style) -> bool { true }
    open spec fn bitor_spec(self, o: Style) -> Style { Style { bits: self.bits | o.bits } } }
impl std::ops::BitOr for Style { type Output = Style; #[verifier::external_body] fn bitor(self, o: Style) -> Style { unimplemented!() } }
impl BitAndSpecImpl for Style { open spec fn obeys_bitand_spec() -> bool { true } open spec fn bitand_req(self, o: Style) -> bool { true }
    open spec fn bitand_spec(self, o: Style) -> Style { Style { bits: self.bits & o.bits } } }
impl std::ops::BitAnd for Style { type Output = Style; #[verifier::external_body] fn bitand(self, o: Style) -> Style { unimplemented!() } }
impl SubSpecImpl for Style { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Style) -> bool { true }
    open spec fn sub_spec(self, o: Style) -> Style { Style { bits: self.bits & !o.bits } } }
impl std::ops::Sub for Style { type Output = Style; #[verifier::external_body] fn sub(self, o: Style) -> Style { unimplemented!() } }
impl Style {
    #[verifier::external_body]
    pub fn empty() -> (r: Style) ensures r.bits == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(self) -> (r: bool) ensures r == (self.bits == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(self, o: Style) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersects(self, o: Style) -> (r: bool) ensures r == (self.bits & o.bits != 0) { unimplemented!() }
}
}
