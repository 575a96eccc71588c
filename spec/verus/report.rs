//@@include tree.rs
//@@include proctypes.rs
//@@include out.rs
//@@include bytes.rs
//@@include reportspec.rs

impl EmvData {
//@@ fn src/emv/tlv_parsing/mod.rs `impl EmvData` len
//@ spec
ensures match r { Some(n) => count(*self) == Some(n as nat), None => count(*self) is None }
//@@ end
}
//@@ fn src/emv/tlv_parsing/mod.rs `impl DisplayBreakdown for ProcessedEmvTag >> display_breakdown` print_tag_name
//@ params stdout indentation header_colour_spec tag length name_option
//@ prints print=stdout
//@ spec
requires *header_colour_spec == header()
ensures final(stdout)@ == tag_line(old(stdout)@, tag@, match length { Some(n) => Some(n as nat), None => None }, match name_option { Some(n) => n@, None => "<Unknown>"@ }, indentation as int)
//@@ end
impl RawEmvTag {
//@@ fn src/emv/tlv_parsing/mod.rs `impl DisplayBreakdown for RawEmvTag` display_breakdown as raw_display
//@ prints print=stdout
//@ spec
requires indentation < 255
ensures final(stdout)@ == content(old(stdout)@, *self, indentation as int)
//@@ end
}
impl ProcessedEmvTag {
//@@ fn src/emv/tlv_parsing/mod.rs `impl DisplayBreakdown for ProcessedEmvTag` display_breakdown as tag_display
//@ prints print=stdout
//@ lower body /fn print_tag_name\(.*?\n\t\t\}\n/ => 
//@ lower body /raw_tag\.display_breakdown\(/ => raw_tag.raw_display(
//@ begin
	hide(tag_line); hide(content);
//@ spec
requires indentation < 251
ensures final(stdout)@ == tag_report(old(stdout)@, *self, indentation as int, show_severity_colours)
//@@ end
}
impl ProcessedEmvNode {
//@@ fn src/emv/tlv_parsing/mod.rs `impl DisplayBreakdown for ProcessedEmvNode` display_breakdown as node_display
//@ prints print=stdout
//@ lower body /self\.tag\s*\.display_breakdown\(/ => self.tag.tag_display(
//@ lower body /self\.child_block\s*\.display_breakdown\(/ => self.child_block.block_display(
//@ spec
requires indentation < 251, within(self.child_block.nodes@, 250 - indentation)
ensures final(stdout)@ == node_report(old(stdout)@, *self, indentation as int, show_severity_colours)
decreases *self, 0int
//@@ end
}
impl ProcessedEmvBlock {
//@@ fn src/emv/tlv_parsing/mod.rs `impl DisplayBreakdown for ProcessedEmvBlock` display_breakdown as block_display
//@ prints print=stdout
//@ locals first node
//@ loops for
//@ iter 0 it
//@ lower body /node\.display_breakdown\(/ => node.node_display(
//@ spec
requires indentation <= 251, within(self.nodes@, 251 - indentation)
ensures final(stdout)@ == nodes_report(old(stdout)@, self.nodes@, self.nodes@.len() as int, indentation as int, show_severity_colours)
decreases *self, 1int
//@ loop 0
	invariant stdout@ == nodes_report(old(stdout)@, self.nodes@, it.index() as int, indentation as int, show_severity_colours), first == (it.index() == 0),
	  it.seq().len() == self.nodes@.len(), it.index() <= self.nodes@.len(), forall|i: int| 0 <= i < self.nodes@.len() ==> *(#[trigger] it.seq()[i]) == self.nodes@[i],
	  indentation <= 251, within(self.nodes@, 251 - indentation),
//@ loop 0 begin
	proof { assert(*node == self.nodes@[it.index() as int]); assert(decreases_to!(self.nodes@ => self.nodes@[it.index() as int])); }
//@@ end
}
}
fn main() {}
