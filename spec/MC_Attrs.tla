------------------------------ MODULE MC_Attrs ------------------------------
EXTENDS Attrs

A(n, v) == [n |-> n, v |-> v, ok |-> TRUE]
X(n, v) == [n |-> n, v |-> v, ok |-> FALSE]

Both == {"ser", "de"}
AllPlaces == {"struct", "tuple", "unit", "enum", "variant", "field", "element", "vfield", "velement", "union", "transparent"}
MainPlaces == {"transparent", "struct", "enum", "variant", "field", "velement"}

\* one suitable value each
Usual == { A("id", "Set"), A("tag_class", "PRIVATE"), A("tag_pc", "PRIMITIVE"), A("tag_num", "31"),
           A("skip", ""), A("skip_serializing", ""), A("skip_deserializing", ""), A("default", "\"dflt\""),
           A("into", "\"i32\""), A("to", "\"to\""), A("from", "\"i32\""), A("try_from", "\"i32\""), A("transparent", "") }
UsualMenu(s) == Usual

\* every value of an argument, suitable or not
Values ==
     { A("id", v) : v \in {"EOC", "Boolean", "Integer", "BitString", "OctetString", "Null", "Real", "UTF8String", "Sequence", "Set"} }
  \cup { X("id", v) : v \in {"sequence", "SEQUENCE", "Foo", "5", "\"Set\"", "=", ""} }
  \cup { A("tag_class", v) : v \in {"UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"} }
  \cup { X("tag_class", v) : v \in {"universal", "Private", "CONTEXT", "CONSTRUCTED", "0", "\"PRIVATE\"", "=", ""} }
  \cup { A("tag_pc", v) : v \in {"PRIMITIVE", "CONSTRUCTED"} }
  \cup { X("tag_pc", v) : v \in {"primitive", "PRIVATE", "1", "\"PRIMITIVE\"", "=", ""} }
  \cup { A("tag_num", v) : v \in {"0", "30", "31", "0x1f", "0o37", "0b11111", "340282366920938463463374607431768211455", "0xffffffffffffffffffffffffffffffff"} }
  \cup { X("tag_num", v) : v \in {"-1", "1.5", "\"31\"", "'a'", "A", "340282366920938463463374607431768211456", "0x100000000000000000000000000000000", "=", ""} }
  \cup { A("skip", ""), A("skip_serializing", ""), A("skip_deserializing", ""), A("transparent", "") }
  \cup { X("skip", "true"), X("skip_serializing", "1"), X("skip_deserializing", "\"x\""), X("transparent", "yes") }
  \cup { A("default", "\"dflt\""), A("default", "\"self::dflt\"") }
  \cup { X("default", v) : v \in {"dflt", "\"\"", "\"1a\"", "\"a b\"", "=", ""} }
  \cup { A("into", "\"i32\""), A("into", "\"std::primitive::i32\""), A("to", "\"to\""), A("to", "\"self::to\"") }
  \cup { X(n, v) : n \in {"into", "to", "from", "try_from"}, v \in {"i32", "\"\"", "\"1a\"", "\"+\"", "5", "=", ""} }
  \cup { A("from", "\"i32\""), A("from", "\"std::primitive::i32\""), A("try_from", "\"i32\"") }
  \cup { X(n, v) : n \in {"foo", "Id", "tagclass", "skip_serialize", "rename", "tag"}, v \in {"", "Set", "\"i32\""} }
ValuesMenu(s) == IF s = <<>> THEN Values ELSE {}
\* an unsuitable one after a suitable one
MixedMenu(s) == IF s = <<>> THEN Usual ELSE Values
=============================================================================
