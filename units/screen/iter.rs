verus! {
impl<'a> LineCharIterator<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.line.wf() && self.indices.s@ == self.line.text@ && 0 <= self.indices.k@ <= self.line.text@.len() && self.cur_element <= self.line.elements@.len()
        &&& self.cur_element > 0 ==> self.line.elements@[self.cur_element - 1].end <= by(self.line.text@.take(self.indices.k@)).len()
    }
}
}
