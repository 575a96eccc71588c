//@@ gen error_texts
impl VxShow for ParseError { open spec fn shown(&self) -> Seq<char> { error_text(*self) } }
impl VxShow for TlvFormat { open spec fn shown(&self) -> Seq<char> { match *self { TlvFormat::BerTlv => "BER-TLV"@, TlvFormat::Ingenico => "Ingenico"@ } } }
