// Generated by tools/gen_layout_catalogue.py.
use super::{Condition, Format, Kind, F, S};

#[allow(unused_variables, unused_parens, non_snake_case)]
mod structs {
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_layout_map::LayoutMap;
use std::io::SeekFrom;

macro_rules! reader {
    ($name:ident) => {
        impl $name {
            fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
                self.data = data.to_vec();
                super::super::outcome_of(data)
            }
        }
    };
}

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "bits0_0", data_type = "BitField32<9>"),
        field(name = "bits0_1", data_type = "BitField32<8>", format = "hex", modifier = "/ 883 + 633508721"),
        field(name = "bits0_2", data_type = "BitField32<2>", format = "hex", modifier = "% 889"),
        field(name = "bits0_3", data_type = "BitField32<2>", format = "hex"),
        field(name = "bits0_4", data_type = "BitField32<11>", format = "hex"),
        field(name = "bits1_0", data_type = "BitField16<1>", byte_order = "BigEndian"),
        field(name = "bits1_1", data_type = "BitField16<1>"),
        field(name = "bits1_2", data_type = "BitField16<1>", modifier = "/ 487 + 2246"),
        field(name = "bits1_3", data_type = "BitField16<13>", modifier = "/ 19 + 12413")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout000 {
    pub data: Vec<u8>,
}
reader!(Layout000);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", member(group(size_condition = "== 4", field(name = "type_0", data_type = "int32")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout001 {
    pub data: Vec<u8>,
}
reader!(Layout001);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "number_of_0", data_type = "[int8; 7]"),
        field(name = "field1", data_type = "FatTimeDate10Ms"),
        field(name = "value2", data_type = "[UnsignedInteger8Bit ; 31]", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout002 {
    pub data: Vec<u8>,
}
reader!(Layout002);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(group(size_condition = "!= 0", field(name = "x0", data_type = "uint16", byte_order = "LittleEndian"), field(name = "x1", data_type = "u8", byte_order = "little"))),
        member(field(name = "field3", data_type = "FatTimeDate10Ms", byte_order = "BigEndian")),
        member(group(size_condition = "!= 8", field(name = "field4", data_type = "UnsignedInteger16Bit", byte_order = "le"), field(name = "number_of_5", data_type = "[uint64; 1]", byte_order = "le"), field(name = "x6", data_type = "uint8", byte_order = "le"))),
        member(group(size_condition = ">= 25", field(name = "x8", data_type = "u32", byte_order = "big", format = "Hexadecimal", modifier = "/ 171"), field(name = "field9", data_type = "i16", byte_order = "little", modifier = ">> 6"))),
        member(group(size_condition = "> 25", field(name = "type_11", data_type = "uint16", byte_order = "big", modifier = "| 0xc463"), field(name = "value12", data_type = "Uuid", byte_order = "LittleEndian"), field(name = "value13", data_type = "FatTimeDate10Ms", byte_order = "little"))),
        member(group(size_condition = "> 59", field(name = "type_15", data_type = "FatTimeDate", byte_order = "be"), field(name = "x16", data_type = "int32", byte_order = "LittleEndian"), field(name = "type_17", data_type = "i32", byte_order = "le"))),
        member(field(name = "x19", data_type = "Utf16String<11>", byte_order = "le")),
        member(group(size_condition = ">= 96", field(name = "field20", data_type = "FatDate", byte_order = "big"), field(name = "value21", data_type = "SignedInteger32Bit", byte_order = "le", modifier = "^ 0x7e79c0ca"), field(name = "type_22", data_type = "Filetime", byte_order = "le"))),
        member(field(name = "value24", data_type = "Uuid", byte_order = "little"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout003 {
    pub data: Vec<u8>,
}
reader!(Layout003);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "field0", data_type = "Ucs2String<3>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout004 {
    pub data: Vec<u8>,
}
reader!(Layout004);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "field0", data_type = "Filetime", byte_order = "BigEndian"),
        field(name = "bits1_0", data_type = "BitField32<9>"),
        field(name = "bits1_1", data_type = "BitField32<5>", modifier = "& 0xe3883e8f"),
        field(name = "bits1_2", data_type = "BitField32<1>"),
        field(name = "bits1_3", data_type = "BitField32<1>", modifier = "/ 522 + 643001773"),
        field(name = "bits1_4", data_type = "BitField32<16>"),
        field(name = "value2", data_type = "Struct<Layout002; 43>"),
        field(name = "value3", data_type = "Utf16String<32>"),
        field(name = "field4", data_type = "UnsignedInteger16Bit"),
        field(name = "bits5_0", data_type = "BitField64<31>", byte_order = "little"),
        field(name = "bits5_1", data_type = "BitField64<7>", format = "hex"),
        field(name = "bits5_2", data_type = "BitField64<8>"),
        field(name = "bits5_3", data_type = "BitField64<17>", modifier = ">> 34"),
        field(name = "bits5_4", data_type = "BitField64<1>", format = "hex"),
        field(name = "field6", data_type = "Ucs2String<3>", byte_order = "LittleEndian"),
        field(name = "x7", data_type = "[u64; 16]"),
        field(name = "value8", data_type = "UnsignedInteger32Bit", format = "Hexadecimal", modifier = "/ 571 + 528322852")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout005 {
    pub data: Vec<u8>,
}
reader!(Layout005);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "bits0_0", data_type = "BitField8<2>", byte_order = "LittleEndian"),
        field(name = "bits0_1", data_type = "BitField8<3>", modifier = ">> 3"),
        field(name = "bits0_2", data_type = "BitField8<1>"),
        field(name = "bits0_3", data_type = "BitField8<2>", modifier = "| 0x7"),
        field(name = "x1", data_type = "UnsignedInteger8Bit", format = "Hexadecimal"),
        field(name = "value2", data_type = "[UnsignedInteger16Bit; 1]"),
        field(name = "number_of_3", data_type = "[int32;7]")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout006 {
    pub data: Vec<u8>,
}
reader!(Layout006);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", field(name = "bits0_0", data_type = "BitField64<5>", byte_order = "big", modifier = "% 747"),
        field(name = "bits0_1", data_type = "BitField64<12>"),
        field(name = "bits0_2", data_type = "BitField64<40>"),
        field(name = "bits0_3", data_type = "BitField64<7>", format = "hex"),
        field(name = "type_1", data_type = "[FatTimeDate10Ms; 5]"),
        field(name = "x2", data_type = "PosixTime32"),
        field(name = "field3", data_type = "[Struct<Layout002; 43>; 2]")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout007 {
    pub data: Vec<u8>,
}
reader!(Layout007);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "value0", data_type = "Filetime", byte_order = "BigEndian"),
        field(name = "bits1_0", data_type = "BitField64<8>", byte_order = "little", format = "hex", modifier = "^ 0x4f0d505ac9a83b59"),
        field(name = "bits1_1", data_type = "BitField64<23>", format = "hex"),
        field(name = "bits1_2", data_type = "BitField64<31>", format = "hex", modifier = "<< 3"),
        field(name = "bits1_3", data_type = "BitField64<1>"),
        field(name = "bits1_4", data_type = "BitField64<1>", format = "hex"),
        field(name = "value2", data_type = "FatTimeDate", byte_order = "le"),
        field(name = "number_of_3", data_type = "PosixTime32", byte_order = "big"),
        field(name = "number_of_4", data_type = "Filetime", byte_order = "le"),
        field(name = "type_5", data_type = "FatTimeDate", byte_order = "BigEndian"),
        field(name = "field6", data_type = "FatTimeDate", byte_order = "LittleEndian"),
        field(name = "value7", data_type = "Filetime", byte_order = "BigEndian"),
        field(name = "bits8_0", data_type = "BitField16<12>", byte_order = "BigEndian", format = "hex", modifier = "& 0x65a0"),
        field(name = "bits8_1", data_type = "BitField16<4>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout008 {
    pub data: Vec<u8>,
}
reader!(Layout008);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", member(field(name = "number_of_0", data_type = "Ucs2String<4>")),
        member(field(name = "x1", data_type = "Ucs2String<2>", byte_order = "little")),
        member(field(name = "field2", data_type = "ByteString<11>")),
        member(field(name = "field3", data_type = "Ucs2String<8>"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout009 {
    pub data: Vec<u8>,
}
reader!(Layout009);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "type_0", data_type = "ByteString<16>", byte_order = "LittleEndian"),
        field(name = "type_1", data_type = "Struct<Layout006;32>"),
        field(name = "type_2", data_type = "Utf16String<2>", byte_order = "le"),
        field(name = "bits3_0", data_type = "BitField8<8>", byte_order = "big"),
        field(name = "bits4_0", data_type = "BitField8<1>", byte_order = "be", format = "hex"),
        field(name = "bits4_1", data_type = "BitField8<7>"),
        field(name = "number_of_5", data_type = "Utf16String<16>"),
        field(name = "field6", data_type = "ByteString<8>"),
        field(name = "value7", data_type = "ByteString<1>", byte_order = "BigEndian"),
        field(name = "value8", data_type = "Ucs2String<1>", byte_order = "big")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout010 {
    pub data: Vec<u8>,
}
reader!(Layout010);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "type_0", data_type = "Filetime", byte_order = "little"),
        field(name = "number_of_1", data_type = "[i8;3]", format = "hex"),
        field(name = "bits2_0", data_type = "BitField16<8>", byte_order = "be"),
        field(name = "bits2_1", data_type = "BitField16<8>", format = "hex"),
        field(name = "bits3_0", data_type = "BitField32<1>", byte_order = "be"),
        field(name = "bits3_1", data_type = "BitField32<3>", format = "hex"),
        field(name = "bits3_2", data_type = "BitField32<28>"),
        field(name = "type_4", data_type = "[u32;50]", byte_order = "little", format = "Hexadecimal"),
        field(name = "field5", data_type = "[UnsignedInteger32Bit;5]", byte_order = "big"),
        field(name = "number_of_6", data_type = "[FatTimeDate; 4]", byte_order = "be"),
        field(name = "x7", data_type = "[Struct<Layout009;39>; 2]", byte_order = "big"),
        field(name = "type_8", data_type = "[SignedInteger8Bit;48]")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout011 {
    pub data: Vec<u8>,
}
reader!(Layout011);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "number_of_0", data_type = "[PosixTime32 ; 33]"),
        field(name = "bits1_0", data_type = "BitField8<8>", byte_order = "be"),
        field(name = "x2", data_type = "UnsignedInteger8Bit", format = "char"),
        field(name = "number_of_3", data_type = "[FatTimeDate; 7]", byte_order = "be"),
        field(name = "type_4", data_type = "[i16; 5]"),
        field(name = "field5", data_type = "uint16")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout012 {
    pub data: Vec<u8>,
}
reader!(Layout012);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(field(name = "field0", data_type = "uint16", byte_order = "little")),
        member(field(name = "value1", data_type = "FatDate", byte_order = "be"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout013 {
    pub data: Vec<u8>,
}
reader!(Layout013);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "x0", data_type = "Ucs2String<4>", byte_order = "little"),
        field(name = "field1", data_type = "ByteString<2>", byte_order = "big")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout014 {
    pub data: Vec<u8>,
}
reader!(Layout014);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "x0", data_type = "Filetime"),
        field(name = "value1", data_type = "Filetime", byte_order = "big"),
        field(name = "value2", data_type = "Uuid")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout015 {
    pub data: Vec<u8>,
}
reader!(Layout015);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "number_of_0", data_type = "UnsignedInteger16Bit", format = "hex", modifier = "^ 0xffe4"),
        field(name = "value1", data_type = "[i64 ; 8]")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout016 {
    pub data: Vec<u8>,
}
reader!(Layout016);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", field(name = "number_of_0", data_type = "[int8;50]")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout017 {
    pub data: Vec<u8>,
}
reader!(Layout017);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "bits0_0", data_type = "BitField32<1>", byte_order = "LittleEndian"),
        field(name = "bits0_1", data_type = "BitField32<9>", format = "hex", modifier = "% 618"),
        field(name = "bits0_2", data_type = "BitField32<22>"),
        field(name = "bits1_0", data_type = "BitField64<17>", byte_order = "le"),
        field(name = "bits1_1", data_type = "BitField64<9>", format = "hex", modifier = ">> 18"),
        field(name = "bits1_2", data_type = "BitField64<7>", modifier = "% 800"),
        field(name = "bits1_3", data_type = "BitField64<1>"),
        field(name = "bits1_4", data_type = "BitField64<5>", format = "hex", modifier = "/ 922 + 3921249735101807183"),
        field(name = "bits1_5", data_type = "BitField64<2>", modifier = "/ 558 + 2561040096219562718"),
        field(name = "bits1_6", data_type = "BitField64<7>"),
        field(name = "bits1_7", data_type = "BitField64<16>"),
        field(name = "bits2_0", data_type = "BitField32<12>", byte_order = "be", format = "hex"),
        field(name = "bits2_1", data_type = "BitField32<1>", modifier = "/ 656"),
        field(name = "bits2_2", data_type = "BitField32<9>", modifier = "& 3189526164"),
        field(name = "bits2_3", data_type = "BitField32<9>", format = "hex"),
        field(name = "bits2_4", data_type = "BitField32<1>", format = "hex", modifier = "/ 910"),
        field(name = "bits3_0", data_type = "BitField64<4>"),
        field(name = "bits3_1", data_type = "BitField64<4>"),
        field(name = "bits3_2", data_type = "BitField64<4>", modifier = "/ 631"),
        field(name = "bits3_3", data_type = "BitField64<9>"),
        field(name = "bits3_4", data_type = "BitField64<31>", format = "hex"),
        field(name = "bits3_5", data_type = "BitField64<12>", format = "hex", modifier = "% 410"),
        field(name = "x4", data_type = "[u8;33]", byte_order = "big", format = "char"),
        field(name = "type_5", data_type = "[uint8; 16]", byte_order = "be", format = "Character")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout018 {
    pub data: Vec<u8>,
}
reader!(Layout018);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "value0", data_type = "int32"),
        field(name = "field1", data_type = "Struct<Layout010;97>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout019 {
    pub data: Vec<u8>,
}
reader!(Layout019);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little", field(name = "bits0_0", data_type = "BitField64<8>", byte_order = "big", format = "hex"),
        field(name = "bits0_1", data_type = "BitField64<9>", format = "hex", modifier = "& 0x960aa686453756f2"),
        field(name = "bits0_2", data_type = "BitField64<12>", modifier = ">> 59"),
        field(name = "bits0_3", data_type = "BitField64<1>", modifier = ">> 9"),
        field(name = "bits0_4", data_type = "BitField64<8>"),
        field(name = "bits0_5", data_type = "BitField64<7>", format = "hex", modifier = "/ 783"),
        field(name = "bits0_6", data_type = "BitField64<19>", format = "hex"),
        field(name = "type_1", data_type = "[uint32;48]", byte_order = "le", format = "hex"),
        field(name = "type_2", data_type = "[uint8;17]", format = "Hexadecimal"),
        field(name = "number_of_3", data_type = "Ucs2String<3>"),
        field(name = "field4", data_type = "Filetime"),
        field(name = "type_5", data_type = "Ucs2String<8>"),
        field(name = "type_6", data_type = "FatTimeDate", byte_order = "be"),
        field(name = "type_7", data_type = "[UnsignedInteger64Bit ; 33]", format = "hex"),
        field(name = "bits8_0", data_type = "BitField8<8>", format = "hex", modifier = "| 0x55")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout020 {
    pub data: Vec<u8>,
}
reader!(Layout020);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "value0", data_type = "[i32; 1]"),
        field(name = "value1", data_type = "Struct<Layout002;43>", byte_order = "BigEndian"),
        field(name = "bits2_0", data_type = "BitField8<1>", format = "hex"),
        field(name = "bits2_1", data_type = "BitField8<7>", modifier = "% 182")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout021 {
    pub data: Vec<u8>,
}
reader!(Layout021);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(field(name = "value0", data_type = "int32", byte_order = "big")),
        member(field(name = "number_of_1", data_type = "UnsignedInteger8Bit", format = "char")),
        member(field(name = "field2", data_type = "i8", byte_order = "LittleEndian")),
        member(field(name = "field3", data_type = "SignedInteger32Bit", byte_order = "be")),
        member(field(name = "field4", data_type = "uint64", byte_order = "be")),
        member(field(name = "type_5", data_type = "[UnsignedInteger8Bit ; 0]", format = "hex")),
        member(field(name = "x6", data_type = "FatDate", byte_order = "le")),
        member(field(name = "number_of_7", data_type = "PosixTime32", byte_order = "le")),
        member(field(name = "value8", data_type = "i16", byte_order = "BigEndian", modifier = "| 0x3159"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout022 {
    pub data: Vec<u8>,
}
reader!(Layout022);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "bits0_0", data_type = "BitField32<12>"),
        field(name = "bits0_1", data_type = "BitField32<20>"),
        field(name = "type_1", data_type = "PosixTime32", byte_order = "little"),
        field(name = "bits2_0", data_type = "BitField64<31>"),
        field(name = "bits2_1", data_type = "BitField64<33>", format = "hex", modifier = "/ 156"),
        field(name = "x3", data_type = "FatDate"),
        field(name = "type_4", data_type = "FatTimeDate"),
        field(name = "field5", data_type = "FatDate")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout023 {
    pub data: Vec<u8>,
}
reader!(Layout023);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField8<4>", byte_order = "BigEndian", format = "hex", modifier = "/ 87"),
        field(name = "bits0_1", data_type = "BitField8<2>", format = "hex", modifier = "/ 124 + 62"),
        field(name = "bits0_2", data_type = "BitField8<2>", modifier = "% 253"),
        field(name = "x1", data_type = "[Struct<Layout008; 50>; 2]", byte_order = "be"),
        field(name = "type_2", data_type = "[FatTimeDate ; 17]", byte_order = "big"),
        field(name = "x3", data_type = "Filetime", byte_order = "LittleEndian")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout024 {
    pub data: Vec<u8>,
}
reader!(Layout024);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "number_of_0", data_type = "[PosixTime32; 18]"),
        field(name = "x1", data_type = "[int64;2]", byte_order = "BigEndian", format = "hex"),
        field(name = "bits2_0", data_type = "BitField64<3>", byte_order = "be"),
        field(name = "bits2_1", data_type = "BitField64<8>", modifier = ">> 30"),
        field(name = "bits2_2", data_type = "BitField64<9>", modifier = "<< 36"),
        field(name = "bits2_3", data_type = "BitField64<40>", format = "hex", modifier = "% 405"),
        field(name = "bits2_4", data_type = "BitField64<4>", format = "hex", modifier = "<< 22"),
        field(name = "x3", data_type = "[u64 ; 15]", format = "hex"),
        field(name = "field4", data_type = "[UnsignedInteger32Bit ; 48]"),
        field(name = "number_of_5", data_type = "[FatTimeDate ; 31]"),
        field(name = "field6", data_type = "[uint16;50]", byte_order = "BigEndian"),
        field(name = "number_of_7", data_type = "[FatDate;18]", byte_order = "be"),
        field(name = "type_8", data_type = "PosixTime32", byte_order = "BigEndian")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout025 {
    pub data: Vec<u8>,
}
reader!(Layout025);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "field0", data_type = "i8", byte_order = "be", modifier = "| 70"),
        field(name = "bits1_0", data_type = "BitField32<12>", byte_order = "le", format = "hex"),
        field(name = "bits1_1", data_type = "BitField32<20>", modifier = "/ 542 + 901380033"),
        field(name = "type_2", data_type = "int8", modifier = "| 0x3c"),
        field(name = "value3", data_type = "i32", modifier = "/ 138"),
        field(name = "bits4_0", data_type = "BitField16<9>", format = "hex"),
        field(name = "bits4_1", data_type = "BitField16<7>"),
        field(name = "x5", data_type = "SignedInteger16Bit")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout026 {
    pub data: Vec<u8>,
}
reader!(Layout026);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "bits0_0", data_type = "BitField64<1>", modifier = "<< 41"),
        field(name = "bits0_1", data_type = "BitField64<12>", format = "hex"),
        field(name = "bits0_2", data_type = "BitField64<2>", modifier = "<< 53"),
        field(name = "bits0_3", data_type = "BitField64<40>", format = "hex"),
        field(name = "bits0_4", data_type = "BitField64<4>"),
        field(name = "bits0_5", data_type = "BitField64<5>", modifier = "^ 0x6565c4336308e616"),
        field(name = "number_of_1", data_type = "[uint8; 17]", byte_order = "le", format = "Character"),
        field(name = "x2", data_type = "int32", format = "hex"),
        field(name = "x3", data_type = "[int32; 7]", format = "hex"),
        field(name = "bits4_0", data_type = "BitField64<2>", byte_order = "be"),
        field(name = "bits4_1", data_type = "BitField64<3>", format = "hex"),
        field(name = "bits4_2", data_type = "BitField64<17>", modifier = "| 0xbdc74153ef97c58a"),
        field(name = "bits4_3", data_type = "BitField64<12>"),
        field(name = "bits4_4", data_type = "BitField64<1>", format = "hex", modifier = "^ 0x6d6bd33f8da4006"),
        field(name = "bits4_5", data_type = "BitField64<7>"),
        field(name = "bits4_6", data_type = "BitField64<2>", format = "hex", modifier = ">> 51"),
        field(name = "bits4_7", data_type = "BitField64<1>", format = "hex"),
        field(name = "bits4_8", data_type = "BitField64<1>", format = "hex"),
        field(name = "bits4_9", data_type = "BitField64<18>"),
        field(name = "bits5_0", data_type = "BitField16<16>", byte_order = "BigEndian", format = "hex"),
        field(name = "type_6", data_type = "[uint8 ; 0]", byte_order = "big"),
        field(name = "x7", data_type = "[SignedInteger8Bit; 8]", byte_order = "little"),
        field(name = "type_8", data_type = "SignedInteger8Bit", byte_order = "BigEndian", format = "hex")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout027 {
    pub data: Vec<u8>,
}
reader!(Layout027);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", member(field(name = "value0", data_type = "ByteString<16>", byte_order = "LittleEndian"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout028 {
    pub data: Vec<u8>,
}
reader!(Layout028);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(field(name = "type_0", data_type = "PosixTime32", byte_order = "big")),
        member(field(name = "type_1", data_type = "PosixTime32", byte_order = "little")),
        member(field(name = "number_of_2", data_type = "FatTimeDate10Ms", byte_order = "LittleEndian")),
        member(field(name = "field3", data_type = "Uuid", byte_order = "be"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout029 {
    pub data: Vec<u8>,
}
reader!(Layout029);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little", field(name = "value0", data_type = "FatDate"),
        field(name = "x1", data_type = "Utf16String<16>", byte_order = "little"),
        field(name = "x2", data_type = "i16", modifier = "<< 8"),
        field(name = "field3", data_type = "[FatDate ; 4]"),
        field(name = "x4", data_type = "int8", format = "hex"),
        field(name = "value5", data_type = "Ucs2String<8>", byte_order = "BigEndian"),
        field(name = "field6", data_type = "Filetime", byte_order = "LittleEndian"),
        field(name = "field7", data_type = "u64", byte_order = "little", format = "Hexadecimal"),
        field(name = "type_8", data_type = "UnsignedInteger64Bit", format = "hex")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout030 {
    pub data: Vec<u8>,
}
reader!(Layout030);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField64<1>", byte_order = "le", modifier = "| 0x71429361f7e6f272"),
        field(name = "bits0_1", data_type = "BitField64<5>", format = "hex"),
        field(name = "bits0_2", data_type = "BitField64<4>", modifier = "/ 883 + 3382399996140775020"),
        field(name = "bits0_3", data_type = "BitField64<23>"),
        field(name = "bits0_4", data_type = "BitField64<17>"),
        field(name = "bits0_5", data_type = "BitField64<14>", format = "hex"),
        field(name = "field1", data_type = "PosixTime32", byte_order = "LittleEndian"),
        field(name = "value2", data_type = "[uint64 ; 50]", byte_order = "BigEndian")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout031 {
    pub data: Vec<u8>,
}
reader!(Layout031);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(field(name = "number_of_0", data_type = "int8")),
        member(group(size_condition = "> 1", field(name = "x1", data_type = "i16", byte_order = "le"), field(name = "value2", data_type = "PosixTime32", byte_order = "BigEndian"))),
        member(field(name = "number_of_4", data_type = "Uuid", byte_order = "little")),
        member(group(size_condition = "== 117", field(name = "x5", data_type = "[int64; 1]", byte_order = "LittleEndian"), field(name = "type_6", data_type = "i8", modifier = "/ 76"), field(name = "number_of_7", data_type = "Struct<Layout030;85>", byte_order = "be")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout032 {
    pub data: Vec<u8>,
}
reader!(Layout032);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "type_0", data_type = "[uint64;5]", byte_order = "big", format = "Hexadecimal")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout033 {
    pub data: Vec<u8>,
}
reader!(Layout033);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", field(name = "type_0", data_type = "i64", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout034 {
    pub data: Vec<u8>,
}
reader!(Layout034);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", field(name = "x0", data_type = "Ucs2String<1>", byte_order = "LittleEndian"),
        field(name = "type_1", data_type = "int32", byte_order = "LittleEndian", modifier = ">> 14"),
        field(name = "value2", data_type = "int8", byte_order = "little", format = "hex"),
        field(name = "bits3_0", data_type = "BitField16<7>"),
        field(name = "bits3_1", data_type = "BitField16<9>")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout035 {
    pub data: Vec<u8>,
}
reader!(Layout035);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "field0", data_type = "int8"),
        field(name = "type_1", data_type = "[UnsignedInteger8Bit; 31]", byte_order = "le", format = "char"),
        field(name = "x2", data_type = "[u8; 0]", format = "hex"),
        field(name = "number_of_3", data_type = "int16", modifier = "/ 817"),
        field(name = "type_4", data_type = "UnsignedInteger64Bit", format = "Hexadecimal"),
        field(name = "value5", data_type = "[UnsignedInteger8Bit ; 32]", format = "Character")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout036 {
    pub data: Vec<u8>,
}
reader!(Layout036);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "value0", data_type = "Uuid"),
        field(name = "x1", data_type = "uuid"),
        field(name = "number_of_2", data_type = "FatTimeDate")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout037 {
    pub data: Vec<u8>,
}
reader!(Layout037);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", member(field(name = "number_of_0", data_type = "i8", format = "hex")),
        member(field(name = "x1", data_type = "ByteString<32>", byte_order = "le")),
        member(field(name = "x2", data_type = "u8", format = "Character", modifier = "^ 0xe2"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout038 {
    pub data: Vec<u8>,
}
reader!(Layout038);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "type_0", data_type = "[FatTimeDate ; 18]", byte_order = "little"),
        field(name = "type_1", data_type = "i64", byte_order = "LittleEndian", format = "hex", modifier = "| 1088974084640746874"),
        field(name = "field2", data_type = "u32", byte_order = "BigEndian", modifier = "/ 296 + 911338195"),
        field(name = "x3", data_type = "[UnsignedInteger16Bit; 15]", byte_order = "be", format = "hex"),
        field(name = "value4", data_type = "i16", byte_order = "be"),
        field(name = "bits5_0", data_type = "BitField64<7>", byte_order = "big", format = "hex"),
        field(name = "bits5_1", data_type = "BitField64<9>", format = "hex"),
        field(name = "bits5_2", data_type = "BitField64<12>"),
        field(name = "bits5_3", data_type = "BitField64<12>"),
        field(name = "bits5_4", data_type = "BitField64<12>"),
        field(name = "bits5_5", data_type = "BitField64<3>", format = "hex"),
        field(name = "bits5_6", data_type = "BitField64<1>"),
        field(name = "bits5_7", data_type = "BitField64<5>", format = "hex", modifier = ">> 5"),
        field(name = "bits5_8", data_type = "BitField64<1>"),
        field(name = "bits5_9", data_type = "BitField64<2>", format = "hex"),
        field(name = "bits6_0", data_type = "BitField64<4>", byte_order = "LittleEndian", modifier = "/ 2 + 2561587098784804879"),
        field(name = "bits6_1", data_type = "BitField64<4>", format = "hex"),
        field(name = "bits6_2", data_type = "BitField64<40>", format = "hex"),
        field(name = "bits6_3", data_type = "BitField64<1>"),
        field(name = "bits6_4", data_type = "BitField64<1>"),
        field(name = "bits6_5", data_type = "BitField64<12>"),
        field(name = "bits6_6", data_type = "BitField64<1>", format = "hex"),
        field(name = "bits6_7", data_type = "BitField64<1>"),
        field(name = "field7", data_type = "i32", byte_order = "little", format = "hex"),
        field(name = "type_8", data_type = "Ucs2String<11>", byte_order = "big")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout039 {
    pub data: Vec<u8>,
}
reader!(Layout039);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "number_of_0", data_type = "Filetime", byte_order = "BigEndian"),
        field(name = "number_of_1", data_type = "FatDate"),
        field(name = "bits2_0", data_type = "BitField32<1>", byte_order = "BigEndian", format = "hex"),
        field(name = "bits2_1", data_type = "BitField32<7>", format = "hex", modifier = "<< 27"),
        field(name = "bits2_2", data_type = "BitField32<17>", format = "hex"),
        field(name = "bits2_3", data_type = "BitField32<4>"),
        field(name = "bits2_4", data_type = "BitField32<1>"),
        field(name = "bits2_5", data_type = "BitField32<2>", format = "hex", modifier = "& 0x9edb3614"),
        field(name = "x3", data_type = "FatDate"),
        field(name = "x4", data_type = "int16", byte_order = "le", modifier = "% 861"),
        field(name = "number_of_5", data_type = "Filetime", byte_order = "big"),
        field(name = "bits6_0", data_type = "BitField32<2>", byte_order = "LittleEndian", format = "hex"),
        field(name = "bits6_1", data_type = "BitField32<1>"),
        field(name = "bits6_2", data_type = "BitField32<2>"),
        field(name = "bits6_3", data_type = "BitField32<1>"),
        field(name = "bits6_4", data_type = "BitField32<26>"),
        field(name = "field7", data_type = "PosixTime32"),
        field(name = "bits8_0", data_type = "BitField32<7>", modifier = "<< 4"),
        field(name = "bits8_1", data_type = "BitField32<3>"),
        field(name = "bits8_2", data_type = "BitField32<12>", format = "hex"),
        field(name = "bits8_3", data_type = "BitField32<1>", format = "hex", modifier = "/ 339"),
        field(name = "bits8_4", data_type = "BitField32<5>"),
        field(name = "bits8_5", data_type = "BitField32<4>")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout040 {
    pub data: Vec<u8>,
}
reader!(Layout040);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little", field(name = "field0", data_type = "i32", modifier = ">> 20"),
        field(name = "number_of_1", data_type = "Uuid"),
        field(name = "number_of_2", data_type = "[Struct<Layout022; 26>; 2]")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout041 {
    pub data: Vec<u8>,
}
reader!(Layout041);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(field(name = "type_0", data_type = "uint32", byte_order = "BigEndian", modifier = "| 0xbdd8d892")),
        member(field(name = "number_of_1", data_type = "uint32", byte_order = "le"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout042 {
    pub data: Vec<u8>,
}
reader!(Layout042);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", member(field(name = "field0", data_type = "Filetime"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout043 {
    pub data: Vec<u8>,
}
reader!(Layout043);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField16<4>", byte_order = "BigEndian", modifier = "/ 398"),
        field(name = "bits0_1", data_type = "BitField16<12>"),
        field(name = "bits1_0", data_type = "BitField32<3>", byte_order = "le"),
        field(name = "bits1_1", data_type = "BitField32<1>", modifier = "/ 377 + 822319539"),
        field(name = "bits1_2", data_type = "BitField32<2>"),
        field(name = "bits1_3", data_type = "BitField32<3>"),
        field(name = "bits1_4", data_type = "BitField32<23>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout044 {
    pub data: Vec<u8>,
}
reader!(Layout044);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "bits0_0", data_type = "BitField8<8>", byte_order = "BigEndian")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout045 {
    pub data: Vec<u8>,
}
reader!(Layout045);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", member(field(name = "type_0", data_type = "FatDate")),
        member(field(name = "field1", data_type = "UnsignedInteger32Bit", byte_order = "BigEndian", format = "Hexadecimal")),
        member(field(name = "value2", data_type = "[u8;5]", byte_order = "BigEndian", format = "char")),
        member(group(size_condition = "> 11", field(name = "number_of_3", data_type = "i8", byte_order = "be", format = "hex", modifier = "<< 4")))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout046 {
    pub data: Vec<u8>,
}
reader!(Layout046);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", member(field(name = "x0", data_type = "FatDate")),
        member(field(name = "value1", data_type = "PosixTime32")),
        member(field(name = "type_2", data_type = "SignedInteger16Bit"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout047 {
    pub data: Vec<u8>,
}
reader!(Layout047);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little", member(group(size_condition = "> 5", field(name = "x0", data_type = "[int16; 1]", byte_order = "LittleEndian", modifier = "& 0x5371"), field(name = "type_1", data_type = "uint16", byte_order = "BigEndian"), field(name = "value2", data_type = "FatDate"))),
        member(field(name = "x4", data_type = "SignedInteger8Bit", modifier = "% 100")),
        member(field(name = "value5", data_type = "SignedInteger16Bit"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout048 {
    pub data: Vec<u8>,
}
reader!(Layout048);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "field0", data_type = "Struct<Layout045;1>"),
        field(name = "value1", data_type = "uint64", byte_order = "little", format = "Hexadecimal", modifier = "/ 147 + 2723297438635480202"),
        field(name = "bits2_0", data_type = "BitField64<12>"),
        field(name = "bits2_1", data_type = "BitField64<31>", format = "hex", modifier = "/ 282 + 3746523169140840572"),
        field(name = "bits2_2", data_type = "BitField64<3>"),
        field(name = "bits2_3", data_type = "BitField64<18>", format = "hex", modifier = "/ 507 + 2852450026654701048"),
        field(name = "field3", data_type = "ByteString<2>"),
        field(name = "value4", data_type = "Utf16String<8>"),
        field(name = "field5", data_type = "SignedInteger16Bit", byte_order = "le", format = "hex", modifier = "/ 185"),
        field(name = "bits6_0", data_type = "BitField64<9>"),
        field(name = "bits6_1", data_type = "BitField64<4>", format = "hex", modifier = "/ 606 + 4429135406503936196"),
        field(name = "bits6_2", data_type = "BitField64<7>", modifier = "& 0x1e046b33e271ab11"),
        field(name = "bits6_3", data_type = "BitField64<7>", modifier = ">> 8"),
        field(name = "bits6_4", data_type = "BitField64<4>"),
        field(name = "bits6_5", data_type = "BitField64<33>", format = "hex"),
        field(name = "value7", data_type = "FatDate"),
        field(name = "field8", data_type = "int16", byte_order = "big")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout049 {
    pub data: Vec<u8>,
}
reader!(Layout049);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "value0", data_type = "Filetime"),
        field(name = "number_of_1", data_type = "Filetime", byte_order = "le"),
        field(name = "field2", data_type = "UnsignedInteger16Bit"),
        field(name = "number_of_3", data_type = "Utf16String<2>")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout050 {
    pub data: Vec<u8>,
}
reader!(Layout050);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(field(name = "number_of_0", data_type = "Uuid")),
        member(field(name = "field1", data_type = "FatDate")),
        member(field(name = "x2", data_type = "i32")),
        member(field(name = "value3", data_type = "[Struct<Layout017; 50>; 5]", byte_order = "BigEndian"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout051 {
    pub data: Vec<u8>,
}
reader!(Layout051);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "x0", data_type = "[UnsignedInteger16Bit ; 33]", byte_order = "BigEndian"),
        field(name = "number_of_1", data_type = "[i64;16]", format = "Hexadecimal")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout052 {
    pub data: Vec<u8>,
}
reader!(Layout052);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "field0", data_type = "SignedInteger32Bit", byte_order = "big"),
        field(name = "type_1", data_type = "Utf16String<16>", byte_order = "big"),
        field(name = "value2", data_type = "[u64;15]", byte_order = "be"),
        field(name = "type_3", data_type = "[SignedInteger16Bit;4]", byte_order = "big", format = "hex")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout053 {
    pub data: Vec<u8>,
}
reader!(Layout053);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(field(name = "value0", data_type = "UnsignedInteger16Bit", modifier = ">> 5")),
        member(field(name = "number_of_1", data_type = "uint64", modifier = "% 602")),
        member(field(name = "field2", data_type = "UnsignedInteger16Bit", byte_order = "LittleEndian", modifier = "^ 688")),
        member(group(size_condition = "== 30", field(name = "value3", data_type = "u16", modifier = "/ 957 + 12673"), field(name = "number_of_4", data_type = "Filetime"), field(name = "type_5", data_type = "[u64; 1]")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout054 {
    pub data: Vec<u8>,
}
reader!(Layout054);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "value0", data_type = "Filetime"),
        field(name = "number_of_1", data_type = "[Struct<Layout016; 66>; 2]"),
        field(name = "type_2", data_type = "PosixTime32"),
        field(name = "value3", data_type = "i32", format = "Hexadecimal", modifier = "<< 26"),
        field(name = "x4", data_type = "Filetime", byte_order = "be"),
        field(name = "number_of_5", data_type = "PosixTime32"),
        field(name = "number_of_6", data_type = "[SignedInteger8Bit ; 5]"),
        field(name = "bits7_0", data_type = "BitField8<1>", byte_order = "big", format = "hex", modifier = "& 0xe2"),
        field(name = "bits7_1", data_type = "BitField8<1>"),
        field(name = "bits7_2", data_type = "BitField8<5>"),
        field(name = "bits7_3", data_type = "BitField8<1>"),
        field(name = "x8", data_type = "PosixTime32")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout055 {
    pub data: Vec<u8>,
}
reader!(Layout055);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", member(field(name = "value0", data_type = "Filetime")),
        member(field(name = "x1", data_type = "Filetime", byte_order = "big")),
        member(field(name = "type_2", data_type = "[UnsignedInteger32Bit; 5]", byte_order = "le", format = "Hexadecimal")),
        member(field(name = "field3", data_type = "i8", byte_order = "little", format = "hex")),
        member(field(name = "number_of_4", data_type = "u8", format = "hex")),
        member(field(name = "x5", data_type = "[uint32; 48]")),
        member(field(name = "value6", data_type = "int8", byte_order = "little", format = "hex")),
        member(field(name = "field7", data_type = "[Uuid;5]")),
        member(field(name = "field8", data_type = "Struct<Layout007;123>"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout056 {
    pub data: Vec<u8>,
}
reader!(Layout056);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "number_of_0", data_type = "UnsignedInteger16Bit", format = "Hexadecimal"),
        field(name = "bits1_0", data_type = "BitField16<16>", byte_order = "le", format = "hex"),
        field(name = "type_2", data_type = "ByteString<11>", byte_order = "big"),
        field(name = "x3", data_type = "[Struct<Layout010; 97>; 5]")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout057 {
    pub data: Vec<u8>,
}
reader!(Layout057);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "x0", data_type = "[FatDate ; 32]", byte_order = "big")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout058 {
    pub data: Vec<u8>,
}
reader!(Layout058);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "bits0_0", data_type = "BitField64<9>"),
        field(name = "bits0_1", data_type = "BitField64<2>", modifier = "<< 15"),
        field(name = "bits0_2", data_type = "BitField64<1>", format = "hex"),
        field(name = "bits0_3", data_type = "BitField64<2>", format = "hex"),
        field(name = "bits0_4", data_type = "BitField64<1>"),
        field(name = "bits0_5", data_type = "BitField64<7>"),
        field(name = "bits0_6", data_type = "BitField64<3>", format = "hex", modifier = "^ 0x57fd0bb670e503e8"),
        field(name = "bits0_7", data_type = "BitField64<1>", modifier = "| 0x7c52654cc2366344"),
        field(name = "bits0_8", data_type = "BitField64<1>"),
        field(name = "bits0_9", data_type = "BitField64<8>", format = "hex", modifier = "^ 0xb2e30fb8e5e0cb7d"),
        field(name = "bits0_10", data_type = "BitField64<17>"),
        field(name = "bits0_11", data_type = "BitField64<2>", modifier = "<< 60"),
        field(name = "bits0_12", data_type = "BitField64<10>", format = "hex"),
        field(name = "value1", data_type = "ByteString<8>", byte_order = "be"),
        field(name = "number_of_2", data_type = "ByteString<1>", byte_order = "big"),
        field(name = "type_3", data_type = "Ucs2String<16>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout059 {
    pub data: Vec<u8>,
}
reader!(Layout059);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "x0", data_type = "FatTimeDate10Ms"),
        field(name = "type_1", data_type = "uuid", byte_order = "be"),
        field(name = "bits2_0", data_type = "BitField8<4>"),
        field(name = "bits2_1", data_type = "BitField8<1>", modifier = "/ 177 + 49"),
        field(name = "bits2_2", data_type = "BitField8<3>", format = "hex", modifier = "| 0xa7"),
        field(name = "number_of_3", data_type = "FatTimeDate", byte_order = "little")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout060 {
    pub data: Vec<u8>,
}
reader!(Layout060);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "number_of_0", data_type = "ByteString<11>", byte_order = "little")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout061 {
    pub data: Vec<u8>,
}
reader!(Layout061);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "bits0_0", data_type = "BitField32<17>", byte_order = "LittleEndian", modifier = "^ 487010230"),
        field(name = "bits0_1", data_type = "BitField32<3>", format = "hex"),
        field(name = "bits0_2", data_type = "BitField32<7>"),
        field(name = "bits0_3", data_type = "BitField32<5>", modifier = "| 305058224")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout062 {
    pub data: Vec<u8>,
}
reader!(Layout062);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "number_of_0", data_type = "[uint8 ; 2]"),
        field(name = "number_of_1", data_type = "[SignedInteger32Bit;50]", byte_order = "big", format = "Hexadecimal"),
        field(name = "x2", data_type = "[SignedInteger8Bit; 16]"),
        field(name = "x3", data_type = "[FatTimeDate10Ms; 48]")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout063 {
    pub data: Vec<u8>,
}
reader!(Layout063);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "bits0_0", data_type = "BitField8<8>", format = "hex", modifier = "| 0xfe"),
        field(name = "type_1", data_type = "SignedInteger32Bit", modifier = "% 819"),
        field(name = "number_of_2", data_type = "ByteString<8>", byte_order = "BigEndian"),
        field(name = "x3", data_type = "Ucs2String<4>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout064 {
    pub data: Vec<u8>,
}
reader!(Layout064);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "number_of_0", data_type = "[uint64; 16]", byte_order = "little", format = "Hexadecimal"),
        field(name = "type_1", data_type = "[UnsignedInteger32Bit;33]", format = "Hexadecimal"),
        field(name = "field2", data_type = "Struct<Layout029; 29>", byte_order = "le"),
        field(name = "value3", data_type = "[SignedInteger8Bit;2]"),
        field(name = "bits4_0", data_type = "BitField8<5>", byte_order = "big"),
        field(name = "bits4_1", data_type = "BitField8<3>", format = "hex", modifier = ">> 7"),
        field(name = "x5", data_type = "[SignedInteger16Bit;31]", format = "Hexadecimal"),
        field(name = "field6", data_type = "[uint8 ; 33]", format = "Character"),
        field(name = "value7", data_type = "[Uuid; 3]", byte_order = "LittleEndian"),
        field(name = "bits8_0", data_type = "BitField64<40>", format = "hex"),
        field(name = "bits8_1", data_type = "BitField64<5>", format = "hex"),
        field(name = "bits8_2", data_type = "BitField64<9>", format = "hex"),
        field(name = "bits8_3", data_type = "BitField64<1>", modifier = "^ 0x79032152b205b57"),
        field(name = "bits8_4", data_type = "BitField64<8>", format = "hex"),
        field(name = "bits8_5", data_type = "BitField64<1>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout065 {
    pub data: Vec<u8>,
}
reader!(Layout065);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little", field(name = "field0", data_type = "FatDate", byte_order = "le")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout066 {
    pub data: Vec<u8>,
}
reader!(Layout066);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField64<1>", byte_order = "LittleEndian", format = "hex", modifier = "& 16980755955216269623"),
        field(name = "bits0_1", data_type = "BitField64<8>"),
        field(name = "bits0_2", data_type = "BitField64<1>"),
        field(name = "bits0_3", data_type = "BitField64<5>", modifier = "/ 784"),
        field(name = "bits0_4", data_type = "BitField64<31>", format = "hex"),
        field(name = "bits0_5", data_type = "BitField64<18>", format = "hex", modifier = "& 0x76a28d5e73d5e67c"),
        field(name = "field1", data_type = "uuid", byte_order = "LittleEndian"),
        field(name = "number_of_2", data_type = "PosixTime32", byte_order = "be"),
        field(name = "bits3_0", data_type = "BitField32<1>", byte_order = "be"),
        field(name = "bits3_1", data_type = "BitField32<2>", format = "hex", modifier = "| 0x5b0a7544"),
        field(name = "bits3_2", data_type = "BitField32<8>", format = "hex", modifier = "/ 878 + 789709321"),
        field(name = "bits3_3", data_type = "BitField32<21>"),
        field(name = "field4", data_type = "uuid", byte_order = "be"),
        field(name = "bits5_0", data_type = "BitField16<16>", byte_order = "be", modifier = "| 0xc015"),
        field(name = "type_6", data_type = "Filetime", byte_order = "big"),
        field(name = "number_of_7", data_type = "FatTimeDate10Ms", byte_order = "LittleEndian"),
        field(name = "bits8_0", data_type = "BitField32<2>", byte_order = "be", modifier = "| 0x110899f2"),
        field(name = "bits8_1", data_type = "BitField32<7>"),
        field(name = "bits8_2", data_type = "BitField32<8>", format = "hex"),
        field(name = "bits8_3", data_type = "BitField32<15>", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout067 {
    pub data: Vec<u8>,
}
reader!(Layout067);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "type_0", data_type = "u32", modifier = ">> 4"),
        field(name = "number_of_1", data_type = "[Filetime;32]", byte_order = "le"),
        field(name = "number_of_2", data_type = "u64", byte_order = "big"),
        field(name = "number_of_3", data_type = "UnsignedInteger64Bit", modifier = ">> 56"),
        field(name = "type_4", data_type = "Utf16String<3>"),
        field(name = "number_of_5", data_type = "u8"),
        field(name = "number_of_6", data_type = "SignedInteger32Bit", format = "Hexadecimal"),
        field(name = "value7", data_type = "Struct<Layout044; 6>", byte_order = "little"),
        field(name = "bits8_0", data_type = "BitField64<5>"),
        field(name = "bits8_1", data_type = "BitField64<7>"),
        field(name = "bits8_2", data_type = "BitField64<4>", format = "hex"),
        field(name = "bits8_3", data_type = "BitField64<4>"),
        field(name = "bits8_4", data_type = "BitField64<1>", format = "hex"),
        field(name = "bits8_5", data_type = "BitField64<7>"),
        field(name = "bits8_6", data_type = "BitField64<8>", format = "hex", modifier = "% 676"),
        field(name = "bits8_7", data_type = "BitField64<1>", format = "hex", modifier = "% 939"),
        field(name = "bits8_8", data_type = "BitField64<9>", modifier = ">> 48"),
        field(name = "bits8_9", data_type = "BitField64<18>", format = "hex", modifier = "/ 977 + 359910367628748387")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout068 {
    pub data: Vec<u8>,
}
reader!(Layout068);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "bits0_0", data_type = "BitField32<32>", byte_order = "le", format = "hex"),
        field(name = "number_of_1", data_type = "Struct<Layout047;8>", byte_order = "little"),
        field(name = "x2", data_type = "Struct<Layout067;67>"),
        field(name = "bits3_0", data_type = "BitField8<3>", byte_order = "be"),
        field(name = "bits3_1", data_type = "BitField8<2>"),
        field(name = "bits3_2", data_type = "BitField8<2>", format = "hex"),
        field(name = "bits3_3", data_type = "BitField8<1>", format = "hex"),
        field(name = "number_of_4", data_type = "Ucs2String<3>"),
        field(name = "type_5", data_type = "[UnsignedInteger8Bit; 31]", format = "hex")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout069 {
    pub data: Vec<u8>,
}
reader!(Layout069);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", field(name = "type_0", data_type = "SignedInteger32Bit"),
        field(name = "value1", data_type = "[uint32 ; 16]", byte_order = "big", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout070 {
    pub data: Vec<u8>,
}
reader!(Layout070);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "number_of_0", data_type = "ByteString<16>", byte_order = "le"),
        field(name = "type_1", data_type = "int8", modifier = "% 109")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout071 {
    pub data: Vec<u8>,
}
reader!(Layout071);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "bits0_0", data_type = "BitField16<16>", byte_order = "be"),
        field(name = "value1", data_type = "Utf16String<4>"),
        field(name = "value2", data_type = "[FatDate;8]"),
        field(name = "number_of_3", data_type = "Utf16String<8>", byte_order = "BigEndian"),
        field(name = "bits4_0", data_type = "BitField32<2>", format = "hex"),
        field(name = "bits4_1", data_type = "BitField32<12>", modifier = ">> 13"),
        field(name = "bits4_2", data_type = "BitField32<5>"),
        field(name = "bits4_3", data_type = "BitField32<2>", modifier = "/ 725"),
        field(name = "bits4_4", data_type = "BitField32<5>", format = "hex"),
        field(name = "bits4_5", data_type = "BitField32<4>", modifier = "& 23928121"),
        field(name = "bits4_6", data_type = "BitField32<2>"),
        field(name = "type_5", data_type = "ByteString<3>", byte_order = "BigEndian")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout072 {
    pub data: Vec<u8>,
}
reader!(Layout072);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "value0", data_type = "UnsignedInteger8Bit", format = "hex"),
        field(name = "field1", data_type = "UnsignedInteger16Bit", byte_order = "le"),
        field(name = "field2", data_type = "uint8")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout073 {
    pub data: Vec<u8>,
}
reader!(Layout073);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", member(group(size_condition = "> 0", field(name = "field0", data_type = "Struct<Layout062; 4>", byte_order = "le"), field(name = "field1", data_type = "Struct<Layout059;49>"))),
        member(group(size_condition = "> 97", field(name = "type_3", data_type = "int16", format = "Hexadecimal", modifier = "<< 6"), field(name = "type_4", data_type = "Struct<Layout002; 43>"))),
        member(field(name = "value6", data_type = "[uint64; 1]", format = "Hexadecimal"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout074 {
    pub data: Vec<u8>,
}
reader!(Layout074);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", member(field(name = "value0", data_type = "i32", format = "Hexadecimal"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout075 {
    pub data: Vec<u8>,
}
reader!(Layout075);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", member(field(name = "field0", data_type = "ByteString<32>", byte_order = "be")),
        member(field(name = "number_of_1", data_type = "ByteString<16>", byte_order = "be")),
        member(field(name = "x2", data_type = "Ucs2String<11>"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout076 {
    pub data: Vec<u8>,
}
reader!(Layout076);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", member(group(size_condition = "!= 0", field(name = "x0", data_type = "uint16", byte_order = "little", modifier = "| 0xb4fa"))),
        member(field(name = "x2", data_type = "UnsignedInteger64Bit", byte_order = "big")),
        member(field(name = "value3", data_type = "FatDate", byte_order = "little"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout077 {
    pub data: Vec<u8>,
}
reader!(Layout077);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(field(name = "type_0", data_type = "ByteString<11>")),
        member(group(size_condition = "== 23", field(name = "field1", data_type = "u32", byte_order = "be"), field(name = "value2", data_type = "u64"))),
        member(group(size_condition = "> 23", field(name = "value4", data_type = "uint32", byte_order = "little", format = "Hexadecimal"), field(name = "number_of_5", data_type = "FatDate"))),
        member(group(size_condition = ">= 58", field(name = "x7", data_type = "SignedInteger32Bit", format = "hex"), field(name = "field8", data_type = "Struct<Layout035; 9>", byte_order = "LittleEndian"), field(name = "x9", data_type = "Uuid", byte_order = "BigEndian")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout078 {
    pub data: Vec<u8>,
}
reader!(Layout078);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField8<8>", byte_order = "big", modifier = ">> 2"),
        field(name = "type_1", data_type = "FatDate", byte_order = "big")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout079 {
    pub data: Vec<u8>,
}
reader!(Layout079);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", field(name = "x0", data_type = "Ucs2String<32>"),
        field(name = "bits1_0", data_type = "BitField32<8>", byte_order = "be", format = "hex"),
        field(name = "bits1_1", data_type = "BitField32<5>", format = "hex", modifier = "% 904"),
        field(name = "bits1_2", data_type = "BitField32<17>"),
        field(name = "bits1_3", data_type = "BitField32<2>"),
        field(name = "number_of_2", data_type = "uuid"),
        field(name = "x3", data_type = "Ucs2String<2>"),
        field(name = "field4", data_type = "Struct<Layout036; 74>", byte_order = "big"),
        field(name = "value5", data_type = "Utf16String<2>", byte_order = "LittleEndian")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout080 {
    pub data: Vec<u8>,
}
reader!(Layout080);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "x0", data_type = "FatDate", byte_order = "big"),
        field(name = "type_1", data_type = "Utf16String<2>", byte_order = "BigEndian"),
        field(name = "x2", data_type = "[Struct<Layout027;76>; 5]", byte_order = "big"),
        field(name = "x3", data_type = "Utf16String<8>", byte_order = "big"),
        field(name = "type_4", data_type = "Ucs2String<16>", byte_order = "LittleEndian"),
        field(name = "value5", data_type = "Ucs2String<16>", byte_order = "little")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout081 {
    pub data: Vec<u8>,
}
reader!(Layout081);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "type_0", data_type = "FatTimeDate"),
        field(name = "x1", data_type = "Utf16String<8>", byte_order = "LittleEndian"),
        field(name = "number_of_2", data_type = "[uint64; 8]", byte_order = "BigEndian", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout082 {
    pub data: Vec<u8>,
}
reader!(Layout082);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(field(name = "x0", data_type = "i64", modifier = "/ 522")),
        member(field(name = "type_1", data_type = "Struct<Layout043;8>", byte_order = "BigEndian")),
        member(field(name = "field2", data_type = "i16", byte_order = "be", format = "hex")),
        member(field(name = "type_3", data_type = "SignedInteger64Bit", byte_order = "little"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout083 {
    pub data: Vec<u8>,
}
reader!(Layout083);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "be", field(name = "number_of_0", data_type = "u16", format = "Hexadecimal"),
        field(name = "field1", data_type = "FatTimeDate"),
        field(name = "bits2_0", data_type = "BitField16<12>"),
        field(name = "bits2_1", data_type = "BitField16<4>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout084 {
    pub data: Vec<u8>,
}
reader!(Layout084);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "number_of_0", data_type = "ByteString<11>"),
        field(name = "bits1_0", data_type = "BitField16<16>", byte_order = "big", modifier = ">> 1")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout085 {
    pub data: Vec<u8>,
}
reader!(Layout085);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(group(size_condition = "== 8", field(name = "number_of_0", data_type = "u64", modifier = "| 0xf2eed62821c7fd1c"))),
        member(field(name = "type_2", data_type = "FatTimeDate10Ms")),
        member(group(size_condition = "!= 13", field(name = "field3", data_type = "Struct<Layout008; 50>", byte_order = "big"), field(name = "number_of_4", data_type = "UnsignedInteger32Bit"), field(name = "x5", data_type = "SignedInteger8Bit"))),
        member(field(name = "value7", data_type = "PosixTime32", byte_order = "BigEndian")),
        member(group(size_condition = "!= 72", field(name = "x8", data_type = "FatDate"), field(name = "type_9", data_type = "SignedInteger64Bit", byte_order = "LittleEndian", modifier = "/ 377"))),
        member(field(name = "value11", data_type = "u16", format = "Hexadecimal", modifier = "^ 0x695"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout086 {
    pub data: Vec<u8>,
}
reader!(Layout086);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(field(name = "type_0", data_type = "i64", byte_order = "BigEndian")),
        member(group(size_condition = "> 8", field(name = "value1", data_type = "u16", byte_order = "big"), field(name = "value2", data_type = "Filetime", byte_order = "le"))),
        member(group(size_condition = "> 18", field(name = "number_of_4", data_type = "i64", byte_order = "BigEndian", format = "Hexadecimal"), field(name = "field5", data_type = "UnsignedInteger16Bit", byte_order = "big", format = "hex", modifier = ">> 8"), field(name = "type_6", data_type = "int32", byte_order = "LittleEndian", modifier = ">> 27"))),
        member(field(name = "x8", data_type = "[UnsignedInteger32Bit; 4]", byte_order = "be"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout087 {
    pub data: Vec<u8>,
}
reader!(Layout087);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(field(name = "field0", data_type = "[uint8;50]", format = "Hexadecimal")),
        member(field(name = "type_1", data_type = "[UnsignedInteger32Bit; 48]", byte_order = "little", format = "hex")),
        member(field(name = "field2", data_type = "SignedInteger64Bit", byte_order = "LittleEndian"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout088 {
    pub data: Vec<u8>,
}
reader!(Layout088);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "value0", data_type = "PosixTime32"),
        field(name = "x1", data_type = "[int64 ; 16]", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout089 {
    pub data: Vec<u8>,
}
reader!(Layout089);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "number_of_0", data_type = "[uint8 ; 32]"),
        field(name = "value1", data_type = "[SignedInteger16Bit;7]", byte_order = "big", format = "Hexadecimal")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout090 {
    pub data: Vec<u8>,
}
reader!(Layout090);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "field0", data_type = "Ucs2String<4>", byte_order = "be")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout091 {
    pub data: Vec<u8>,
}
reader!(Layout091);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField8<8>", byte_order = "be", format = "hex")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout092 {
    pub data: Vec<u8>,
}
reader!(Layout092);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "bits0_0", data_type = "BitField64<4>", modifier = ">> 27"),
        field(name = "bits0_1", data_type = "BitField64<8>", format = "hex", modifier = "& 0x1963503b0558926c"),
        field(name = "bits0_2", data_type = "BitField64<12>"),
        field(name = "bits0_3", data_type = "BitField64<3>", format = "hex"),
        field(name = "bits0_4", data_type = "BitField64<31>", modifier = "& 0xe2850e5e105830a9"),
        field(name = "bits0_5", data_type = "BitField64<1>", format = "hex"),
        field(name = "bits0_6", data_type = "BitField64<5>"),
        field(name = "field1", data_type = "u16"),
        field(name = "type_2", data_type = "[UnsignedInteger8Bit ; 7]", byte_order = "BigEndian", format = "hex"),
        field(name = "value3", data_type = "uint32"),
        field(name = "x4", data_type = "[uint32; 3]", byte_order = "be"),
        field(name = "number_of_5", data_type = "[Uuid; 5]"),
        field(name = "bits6_0", data_type = "BitField32<3>", byte_order = "little", format = "hex", modifier = "% 396"),
        field(name = "bits6_1", data_type = "BitField32<29>", format = "hex"),
        field(name = "x7", data_type = "[SignedInteger8Bit; 4]", byte_order = "little", format = "Hexadecimal"),
        field(name = "bits8_0", data_type = "BitField64<23>", byte_order = "little"),
        field(name = "bits8_1", data_type = "BitField64<5>", modifier = "^ 2574232373376000082"),
        field(name = "bits8_2", data_type = "BitField64<1>"),
        field(name = "bits8_3", data_type = "BitField64<12>"),
        field(name = "bits8_4", data_type = "BitField64<4>", format = "hex", modifier = "^ 0x48a951eb6b128a1b"),
        field(name = "bits8_5", data_type = "BitField64<7>", modifier = "^ 0x1d00fd39c881a6ac"),
        field(name = "bits8_6", data_type = "BitField64<12>", modifier = "/ 490 + 3734401681509631568")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout093 {
    pub data: Vec<u8>,
}
reader!(Layout093);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(group(size_condition = "> 0", field(name = "value0", data_type = "SignedInteger32Bit", byte_order = "BigEndian"))),
        member(group(size_condition = "== 16", field(name = "value2", data_type = "i64", byte_order = "le", modifier = "& 0x2c4d09cd7ab77444"), field(name = "value3", data_type = "Struct<Layout073; 4>", byte_order = "LittleEndian"))),
        member(field(name = "field5", data_type = "uint32", byte_order = "be", modifier = "^ 0xff82ed6")),
        member(group(size_condition = "== 29", field(name = "type_6", data_type = "FatTimeDate", byte_order = "be"), field(name = "field7", data_type = "FatTimeDate10Ms", byte_order = "little")))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout094 {
    pub data: Vec<u8>,
}
reader!(Layout094);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(group(size_condition = "> 4", field(name = "number_of_0", data_type = "UnsignedInteger8Bit", modifier = "^ 0x1f"), field(name = "field1", data_type = "FatTimeDate", byte_order = "be"))),
        member(field(name = "type_3", data_type = "UnsignedInteger32Bit", byte_order = "big", format = "hex", modifier = "<< 29")),
        member(field(name = "value4", data_type = "UnsignedInteger64Bit", byte_order = "le", format = "Hexadecimal", modifier = "% 270")),
        member(field(name = "x5", data_type = "i64", byte_order = "be", format = "hex")),
        member(field(name = "x6", data_type = "SignedInteger32Bit", byte_order = "big", format = "Hexadecimal")),
        member(group(size_condition = "!= 29", field(name = "x7", data_type = "int64", byte_order = "BigEndian"), field(name = "field8", data_type = "uint64", byte_order = "little", modifier = "/ 126"), field(name = "number_of_9", data_type = "[SignedInteger64Bit; 1]", byte_order = "le"))),
        member(field(name = "type_11", data_type = "UnsignedInteger8Bit", byte_order = "LittleEndian", format = "hex")),
        member(group(size_condition = ">= 57", field(name = "x12", data_type = "UnsignedInteger16Bit", byte_order = "BigEndian", format = "Hexadecimal"), field(name = "type_13", data_type = "[i8; 1]", format = "hex", modifier = "<< 6"))),
        member(group(size_condition = ">= 70", field(name = "x15", data_type = "Struct<Layout035; 9>", byte_order = "be"), field(name = "field16", data_type = "uint32", byte_order = "BigEndian")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout095 {
    pub data: Vec<u8>,
}
reader!(Layout095);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(group(size_condition = "> 0", field(name = "x0", data_type = "PosixTime32"))),
        member(field(name = "number_of_2", data_type = "FatTimeDate", byte_order = "be"))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout096 {
    pub data: Vec<u8>,
}
reader!(Layout096);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "BigEndian", member(group(size_condition = "> 0", field(name = "number_of_0", data_type = "Filetime"))),
        member(field(name = "number_of_2", data_type = "ByteString<1>", byte_order = "be")),
        member(field(name = "type_3", data_type = "uint64", byte_order = "be", format = "Hexadecimal", modifier = "% 465")),
        member(group(size_condition = "!= 17", field(name = "field4", data_type = "FatTimeDate", byte_order = "be"), field(name = "number_of_5", data_type = "PosixTime32", byte_order = "le")))
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout097 {
    pub data: Vec<u8>,
}
reader!(Layout097);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "value0", data_type = "[Struct<Layout036; 74>; 3]", byte_order = "BigEndian")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout098 {
    pub data: Vec<u8>,
}
reader!(Layout098);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", member(field(name = "x0", data_type = "[UnsignedInteger32Bit ; 4]", byte_order = "BigEndian", format = "Hexadecimal")),
        member(field(name = "number_of_1", data_type = "int16", format = "hex")),
        member(field(name = "number_of_2", data_type = "Ucs2String<8>"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout099 {
    pub data: Vec<u8>,
}
reader!(Layout099);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "bits0_0", data_type = "BitField32<12>", byte_order = "little"),
        field(name = "bits0_1", data_type = "BitField32<1>"),
        field(name = "bits0_2", data_type = "BitField32<2>", format = "hex", modifier = "/ 48"),
        field(name = "bits0_3", data_type = "BitField32<17>"),
        field(name = "field1", data_type = "PosixTime32", byte_order = "be"),
        field(name = "field2", data_type = "PosixTime32", byte_order = "BigEndian"),
        field(name = "bits3_0", data_type = "BitField16<8>", byte_order = "be"),
        field(name = "bits3_1", data_type = "BitField16<8>")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout100 {
    pub data: Vec<u8>,
}
reader!(Layout100);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", member(group(size_condition = "== 5", field(name = "type_0", data_type = "i16", byte_order = "BigEndian", modifier = "% 857"), field(name = "field1", data_type = "u8", format = "Hexadecimal"), field(name = "type_2", data_type = "[UnsignedInteger16Bit; 1]")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout101 {
    pub data: Vec<u8>,
}
reader!(Layout101);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "value0", data_type = "ByteString<32>", byte_order = "LittleEndian"),
        field(name = "bits1_0", data_type = "BitField16<16>", byte_order = "little", format = "hex"),
        field(name = "type_2", data_type = "Utf16String<16>", byte_order = "LittleEndian"),
        field(name = "bits3_0", data_type = "BitField64<2>", byte_order = "little", format = "hex"),
        field(name = "bits3_1", data_type = "BitField64<23>", format = "hex"),
        field(name = "bits3_2", data_type = "BitField64<12>", format = "hex"),
        field(name = "bits3_3", data_type = "BitField64<4>"),
        field(name = "bits3_4", data_type = "BitField64<1>", format = "hex", modifier = "& 14386601562671989766"),
        field(name = "bits3_5", data_type = "BitField64<17>"),
        field(name = "bits3_6", data_type = "BitField64<5>", format = "hex"),
        field(name = "type_4", data_type = "ByteString<8>", byte_order = "le"),
        field(name = "bits5_0", data_type = "BitField32<3>", byte_order = "little"),
        field(name = "bits5_1", data_type = "BitField32<9>", format = "hex", modifier = "/ 233 + 257007334"),
        field(name = "bits5_2", data_type = "BitField32<2>", format = "hex", modifier = "| 0x741f3f76"),
        field(name = "bits5_3", data_type = "BitField32<8>"),
        field(name = "bits5_4", data_type = "BitField32<10>", modifier = "% 954")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout102 {
    pub data: Vec<u8>,
}
reader!(Layout102);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        field(name = "field0", data_type = "PosixTime32", byte_order = "be"),
        field(name = "field1", data_type = "i64", byte_order = "be"),
        field(name = "x2", data_type = "ByteString<16>", byte_order = "LittleEndian"),
        field(name = "bits3_0", data_type = "BitField8<4>", byte_order = "le", modifier = "/ 81 + 61"),
        field(name = "bits3_1", data_type = "BitField8<4>", modifier = "/ 203 + 55")
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
pub struct Layout103 {
    pub data: Vec<u8>,
}
reader!(Layout103);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "le", field(name = "type_0", data_type = "i16"),
        field(name = "value1", data_type = "PosixTime32"),
        field(name = "value2", data_type = "ByteString<32>"),
        field(name = "x3", data_type = "FatTimeDate", byte_order = "BigEndian")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout104 {
    pub data: Vec<u8>,
}
reader!(Layout104);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "value0", data_type = "Ucs2String<2>", byte_order = "big"),
        field(name = "type_1", data_type = "Ucs2String<8>", byte_order = "le"),
        field(name = "bits2_0", data_type = "BitField16<5>", format = "hex"),
        field(name = "bits2_1", data_type = "BitField16<8>"),
        field(name = "bits2_2", data_type = "BitField16<3>", modifier = "/ 657 + 4604")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout105 {
    pub data: Vec<u8>,
}
reader!(Layout105);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        member(group(size_condition = "== 1", field(name = "number_of_0", data_type = "[UnsignedInteger8Bit; 1]", byte_order = "big"))),
        member(group(size_condition = "!= 1", field(name = "value2", data_type = "int16", byte_order = "big", modifier = "/ 99 + 1149"))),
        member(group(size_condition = "> 12", field(name = "number_of_4", data_type = "Struct<Layout004; 6>", byte_order = "little"), field(name = "type_5", data_type = "PosixTime32", byte_order = "little"))),
        member(group(size_condition = "!= 13", field(name = "type_7", data_type = "SignedInteger32Bit", byte_order = "be"), field(name = "number_of_8", data_type = "UnsignedInteger16Bit", byte_order = "be", format = "Hexadecimal", modifier = "% 149")))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout106 {
    pub data: Vec<u8>,
}
reader!(Layout106);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "LittleEndian", field(name = "type_0", data_type = "ByteString<3>", byte_order = "little"),
        field(name = "value1", data_type = "ByteString<3>", byte_order = "LittleEndian")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout107 {
    pub data: Vec<u8>,
}
reader!(Layout107);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big", field(name = "value0", data_type = "[UnsignedInteger8Bit ; 4]", byte_order = "be", format = "Hexadecimal"),
        field(name = "number_of_1", data_type = "[PosixTime32;33]", byte_order = "le"),
        field(name = "type_2", data_type = "[uint8; 17]", byte_order = "be", format = "hex"),
        field(name = "x3", data_type = "[UnsignedInteger8Bit; 8]"),
        field(name = "type_4", data_type = "[i64;2]"),
        field(name = "type_5", data_type = "[uint8; 18]", format = "Hexadecimal")
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout108 {
    pub data: Vec<u8>,
}
reader!(Layout108);

#[derive(Default, LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little", member(field(name = "number_of_0", data_type = "UnsignedInteger64Bit", byte_order = "LittleEndian"))
    ),
    method(name = "read_at_position"),
    method(name = "debug_read_data")
)]
pub struct Layout109 {
    pub data: Vec<u8>,
}
reader!(Layout109);

pub fn read_layout000(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout000::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout001(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout001::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout002(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout002::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout003(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout003::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout004(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout004::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout005(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout005::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout006(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout006::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout007(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout007::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout008(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout008::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout009(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout009::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout010(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout010::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout011(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout011::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout012(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout012::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout013(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout013::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout014(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout014::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout015(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout015::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout016(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout016::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout017(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout017::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout018(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout018::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout019(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout019::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout020(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout020::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout021(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout021::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout022(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout022::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout023(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout023::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout024(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout024::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout025(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout025::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout026(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout026::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout027(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout027::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout028(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout028::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout029(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout029::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout030(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout030::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout031(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout031::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout032(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout032::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout033(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout033::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout034(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout034::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout035(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout035::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout036(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout036::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout037(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout037::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout038(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout038::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout039(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout039::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout040(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout040::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout041(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout041::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout042(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout042::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout043(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout043::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout044(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout044::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout045(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout045::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout046(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout046::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout047(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout047::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout048(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout048::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout049(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout049::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout050(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout050::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout051(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout051::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout052(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout052::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout053(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout053::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout054(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout054::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout055(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout055::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout056(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout056::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout057(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout057::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout058(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout058::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout059(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout059::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout060(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout060::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout061(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout061::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout062(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout062::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout063(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout063::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout064(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout064::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout065(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout065::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout066(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout066::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout067(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout067::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout068(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout068::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout069(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout069::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout070(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout070::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout071(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout071::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout072(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout072::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout073(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout073::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout074(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout074::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout075(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout075::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout076(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout076::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout077(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout077::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout078(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout078::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout079(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout079::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout080(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout080::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout081(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout081::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout082(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout082::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout083(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout083::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout084(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout084::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout085(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout085::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout086(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout086::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout087(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout087::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout088(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout088::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout089(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout089::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout090(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout090::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout091(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout091::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout092(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout092::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout093(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout093::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout094(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout094::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout095(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout095::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout096(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout096::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout097(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout097::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout098(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout098::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout099(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout099::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout100(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout100::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout101(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout101::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout102(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout102::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout103(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout103::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout104(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout104::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout105(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout105::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout106(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout106::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout107(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout107::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout108(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout108::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
pub fn read_layout109(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = Layout109::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}
}

pub static CATALOGUE: &[S] = &[
    S {
        name: "Layout000",
        size: 6,
        debug: structs::Layout000::debug_read_data,
        read: structs::read_layout000,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 9, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 4, shift: 9 }, be: false, format: Format::Hex, modifiers: &[('/', 883), ('+', 633508721)], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 4, shift: 17 }, be: false, format: Format::Hex, modifiers: &[('%', 889)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 4, shift: 19 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 4, shift: 21 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 11, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 4 },
            F { name: "bits1_1", kind: Kind::Bits { size: 2, shift: 1 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 4 },
            F { name: "bits1_2", kind: Kind::Bits { size: 2, shift: 2 }, be: true, format: Format::Plain, modifiers: &[('/', 487), ('+', 2246)], count: None, bits: 1, condition: None, offset: 4 },
            F { name: "bits1_3", kind: Kind::Bits { size: 2, shift: 3 }, be: true, format: Format::Plain, modifiers: &[('/', 19), ('+', 12413)], count: None, bits: 13, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout001",
        size: 4,
        debug: structs::Layout001::debug_read_data,
        read: structs::read_layout001,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(4)), offset: 0 },
        ],
    },
    S {
        name: "Layout002",
        size: 43,
        debug: structs::Layout002::debug_read_data,
        read: structs::read_layout002,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: Some(7), bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::FatTimeDate10Ms, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 7 },
            F { name: "value2", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(31), bits: 0, condition: None, offset: 12 },
        ],
    },
    S {
        name: "Layout003",
        size: 112,
        debug: structs::Layout003::debug_read_data,
        read: structs::read_layout003,
        fields: &[
            F { name: "x0", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(0)), offset: 0 },
            F { name: "x1", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(0)), offset: 2 },
            F { name: "field3", kind: Kind::FatTimeDate10Ms, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 3 },
            F { name: "field4", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(8)), offset: 8 },
            F { name: "number_of_5", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(8)), offset: 10 },
            F { name: "x6", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(8)), offset: 18 },
            F { name: "x8", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Hex, modifiers: &[('/', 171)], count: None, bits: 0, condition: Some(Condition::AtLeast(25)), offset: 19 },
            F { name: "field9", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[('>', 6)], count: None, bits: 0, condition: Some(Condition::AtLeast(25)), offset: 23 },
            F { name: "type_11", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[('|', 50275)], count: None, bits: 0, condition: Some(Condition::Greater(25)), offset: 25 },
            F { name: "value12", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(25)), offset: 27 },
            F { name: "value13", kind: Kind::FatTimeDate10Ms, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(25)), offset: 43 },
            F { name: "type_15", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(59)), offset: 48 },
            F { name: "x16", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(59)), offset: 52 },
            F { name: "type_17", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(59)), offset: 56 },
            F { name: "x19", kind: Kind::Utf16String(11), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 60 },
            F { name: "field20", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(96)), offset: 82 },
            F { name: "value21", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[('^', 2121908426)], count: None, bits: 0, condition: Some(Condition::AtLeast(96)), offset: 84 },
            F { name: "type_22", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(96)), offset: 88 },
            F { name: "value24", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 96 },
        ],
    },
    S {
        name: "Layout004",
        size: 6,
        debug: structs::Layout004::debug_read_data,
        read: structs::read_layout004,
        fields: &[
            F { name: "field0", kind: Kind::Ucs2String(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout005",
        size: 267,
        debug: structs::Layout005::debug_read_data,
        read: structs::read_layout005,
        fields: &[
            F { name: "field0", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 9, condition: None, offset: 8 },
            F { name: "bits1_1", kind: Kind::Bits { size: 4, shift: 9 }, be: false, format: Format::Plain, modifiers: &[('&', 3817356943)], count: None, bits: 5, condition: None, offset: 8 },
            F { name: "bits1_2", kind: Kind::Bits { size: 4, shift: 14 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 8 },
            F { name: "bits1_3", kind: Kind::Bits { size: 4, shift: 15 }, be: false, format: Format::Plain, modifiers: &[('/', 522), ('+', 643001773)], count: None, bits: 1, condition: None, offset: 8 },
            F { name: "bits1_4", kind: Kind::Bits { size: 4, shift: 16 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 16, condition: None, offset: 8 },
            F { name: "value2", kind: Kind::Struct(2, 43), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 12 },
            F { name: "value3", kind: Kind::Utf16String(32), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 55 },
            F { name: "field4", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 119 },
            F { name: "bits5_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 31, condition: None, offset: 121 },
            F { name: "bits5_1", kind: Kind::Bits { size: 8, shift: 31 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 7, condition: None, offset: 121 },
            F { name: "bits5_2", kind: Kind::Bits { size: 8, shift: 38 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 121 },
            F { name: "bits5_3", kind: Kind::Bits { size: 8, shift: 46 }, be: false, format: Format::Plain, modifiers: &[('>', 34)], count: None, bits: 17, condition: None, offset: 121 },
            F { name: "bits5_4", kind: Kind::Bits { size: 8, shift: 63 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 121 },
            F { name: "field6", kind: Kind::Ucs2String(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 129 },
            F { name: "x7", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 135 },
            F { name: "value8", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[('/', 571), ('+', 528322852)], count: None, bits: 0, condition: None, offset: 263 },
        ],
    },
    S {
        name: "Layout006",
        size: 32,
        debug: structs::Layout006::debug_read_data,
        read: structs::read_layout006,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 1, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 1, shift: 2 }, be: false, format: Format::Plain, modifiers: &[('>', 3)], count: None, bits: 3, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 1, shift: 5 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 1, shift: 6 }, be: false, format: Format::Plain, modifiers: &[('|', 7)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 1 },
            F { name: "value2", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "number_of_3", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: Some(7), bits: 0, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout007",
        size: 123,
        debug: structs::Layout007::debug_read_data,
        read: structs::read_layout007,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('%', 747)], count: None, bits: 5, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 5 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 17 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 40, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 57 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 7, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::FatTimeDate10Ms, be: true, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 8 },
            F { name: "x2", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 33 },
            F { name: "field3", kind: Kind::Struct(2, 43), be: false, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 37 },
        ],
    },
    S {
        name: "Layout008",
        size: 50,
        debug: structs::Layout008::debug_read_data,
        read: structs::read_layout008,
        fields: &[
            F { name: "value0", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Hex, modifiers: &[('^', 5696297454554069849)], count: None, bits: 8, condition: None, offset: 8 },
            F { name: "bits1_1", kind: Kind::Bits { size: 8, shift: 8 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 23, condition: None, offset: 8 },
            F { name: "bits1_2", kind: Kind::Bits { size: 8, shift: 31 }, be: false, format: Format::Hex, modifiers: &[('<', 3)], count: None, bits: 31, condition: None, offset: 8 },
            F { name: "bits1_3", kind: Kind::Bits { size: 8, shift: 62 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 8 },
            F { name: "bits1_4", kind: Kind::Bits { size: 8, shift: 63 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 8 },
            F { name: "value2", kind: Kind::FatTimeDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "number_of_3", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 20 },
            F { name: "number_of_4", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 24 },
            F { name: "type_5", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 32 },
            F { name: "field6", kind: Kind::FatTimeDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 36 },
            F { name: "value7", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 40 },
            F { name: "bits8_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Hex, modifiers: &[('&', 26016)], count: None, bits: 12, condition: None, offset: 48 },
            F { name: "bits8_1", kind: Kind::Bits { size: 2, shift: 12 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 48 },
        ],
    },
    S {
        name: "Layout009",
        size: 39,
        debug: structs::Layout009::debug_read_data,
        read: structs::read_layout009,
        fields: &[
            F { name: "number_of_0", kind: Kind::Ucs2String(4), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Ucs2String(2), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "field2", kind: Kind::ByteString(11), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 12 },
            F { name: "field3", kind: Kind::Ucs2String(8), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 23 },
        ],
    },
    S {
        name: "Layout010",
        size: 97,
        debug: structs::Layout010::debug_read_data,
        read: structs::read_layout010,
        fields: &[
            F { name: "type_0", kind: Kind::ByteString(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Struct(6, 32), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "type_2", kind: Kind::Utf16String(2), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 48 },
            F { name: "bits3_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 52 },
            F { name: "bits4_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 53 },
            F { name: "bits4_1", kind: Kind::Bits { size: 1, shift: 1 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 53 },
            F { name: "number_of_5", kind: Kind::Utf16String(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 54 },
            F { name: "field6", kind: Kind::ByteString(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 86 },
            F { name: "value7", kind: Kind::ByteString(1), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 94 },
            F { name: "value8", kind: Kind::Ucs2String(1), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 95 },
        ],
    },
    S {
        name: "Layout011",
        size: 379,
        debug: structs::Layout011::debug_read_data,
        read: structs::read_layout011,
        fields: &[
            F { name: "type_0", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: Some(3), bits: 0, condition: None, offset: 8 },
            F { name: "bits2_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 11 },
            F { name: "bits2_1", kind: Kind::Bits { size: 2, shift: 8 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 8, condition: None, offset: 11 },
            F { name: "bits3_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 13 },
            F { name: "bits3_1", kind: Kind::Bits { size: 4, shift: 1 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 3, condition: None, offset: 13 },
            F { name: "bits3_2", kind: Kind::Bits { size: 4, shift: 4 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 28, condition: None, offset: 13 },
            F { name: "type_4", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(50), bits: 0, condition: None, offset: 17 },
            F { name: "field5", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 217 },
            F { name: "number_of_6", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 237 },
            F { name: "x7", kind: Kind::Struct(9, 39), be: false, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 253 },
            F { name: "type_8", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: Some(48), bits: 0, condition: None, offset: 331 },
        ],
    },
    S {
        name: "Layout012",
        size: 174,
        debug: structs::Layout012::debug_read_data,
        read: structs::read_layout012,
        fields: &[
            F { name: "number_of_0", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 132 },
            F { name: "x2", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Char, modifiers: &[], count: None, bits: 0, condition: None, offset: 133 },
            F { name: "number_of_3", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: Some(7), bits: 0, condition: None, offset: 134 },
            F { name: "type_4", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 162 },
            F { name: "field5", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 172 },
        ],
    },
    S {
        name: "Layout013",
        size: 4,
        debug: structs::Layout013::debug_read_data,
        read: structs::read_layout013,
        fields: &[
            F { name: "field0", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
        ],
    },
    S {
        name: "Layout014",
        size: 10,
        debug: structs::Layout014::debug_read_data,
        read: structs::read_layout014,
        fields: &[
            F { name: "x0", kind: Kind::Ucs2String(4), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::ByteString(2), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
        ],
    },
    S {
        name: "Layout015",
        size: 32,
        debug: structs::Layout015::debug_read_data,
        read: structs::read_layout015,
        fields: &[
            F { name: "x0", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "value2", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
        ],
    },
    S {
        name: "Layout016",
        size: 66,
        debug: structs::Layout016::debug_read_data,
        read: structs::read_layout016,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[('^', 65508)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: Some(8), bits: 0, condition: None, offset: 2 },
        ],
    },
    S {
        name: "Layout017",
        size: 50,
        debug: structs::Layout017::debug_read_data,
        read: structs::read_layout017,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: Some(50), bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout018",
        size: 73,
        debug: structs::Layout018::debug_read_data,
        read: structs::read_layout018,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 4, shift: 1 }, be: false, format: Format::Hex, modifiers: &[('%', 618)], count: None, bits: 9, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 4, shift: 10 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 22, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 17, condition: None, offset: 4 },
            F { name: "bits1_1", kind: Kind::Bits { size: 8, shift: 17 }, be: false, format: Format::Hex, modifiers: &[('>', 18)], count: None, bits: 9, condition: None, offset: 4 },
            F { name: "bits1_2", kind: Kind::Bits { size: 8, shift: 26 }, be: false, format: Format::Plain, modifiers: &[('%', 800)], count: None, bits: 7, condition: None, offset: 4 },
            F { name: "bits1_3", kind: Kind::Bits { size: 8, shift: 33 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 4 },
            F { name: "bits1_4", kind: Kind::Bits { size: 8, shift: 34 }, be: false, format: Format::Hex, modifiers: &[('/', 922), ('+', 3921249735101807183)], count: None, bits: 5, condition: None, offset: 4 },
            F { name: "bits1_5", kind: Kind::Bits { size: 8, shift: 39 }, be: false, format: Format::Plain, modifiers: &[('/', 558), ('+', 2561040096219562718)], count: None, bits: 2, condition: None, offset: 4 },
            F { name: "bits1_6", kind: Kind::Bits { size: 8, shift: 41 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 4 },
            F { name: "bits1_7", kind: Kind::Bits { size: 8, shift: 48 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 16, condition: None, offset: 4 },
            F { name: "bits2_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 12, condition: None, offset: 12 },
            F { name: "bits2_1", kind: Kind::Bits { size: 4, shift: 12 }, be: true, format: Format::Plain, modifiers: &[('/', 656)], count: None, bits: 1, condition: None, offset: 12 },
            F { name: "bits2_2", kind: Kind::Bits { size: 4, shift: 13 }, be: true, format: Format::Plain, modifiers: &[('&', 3189526164)], count: None, bits: 9, condition: None, offset: 12 },
            F { name: "bits2_3", kind: Kind::Bits { size: 4, shift: 22 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 9, condition: None, offset: 12 },
            F { name: "bits2_4", kind: Kind::Bits { size: 4, shift: 31 }, be: true, format: Format::Hex, modifiers: &[('/', 910)], count: None, bits: 1, condition: None, offset: 12 },
            F { name: "bits3_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 16 },
            F { name: "bits3_1", kind: Kind::Bits { size: 8, shift: 4 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 16 },
            F { name: "bits3_2", kind: Kind::Bits { size: 8, shift: 8 }, be: false, format: Format::Plain, modifiers: &[('/', 631)], count: None, bits: 4, condition: None, offset: 16 },
            F { name: "bits3_3", kind: Kind::Bits { size: 8, shift: 12 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 9, condition: None, offset: 16 },
            F { name: "bits3_4", kind: Kind::Bits { size: 8, shift: 21 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 31, condition: None, offset: 16 },
            F { name: "bits3_5", kind: Kind::Bits { size: 8, shift: 52 }, be: false, format: Format::Hex, modifiers: &[('%', 410)], count: None, bits: 12, condition: None, offset: 16 },
            F { name: "x4", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Char, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 24 },
            F { name: "type_5", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Char, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 57 },
        ],
    },
    S {
        name: "Layout019",
        size: 101,
        debug: structs::Layout019::debug_read_data,
        read: structs::read_layout019,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Struct(10, 97), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout020",
        size: 516,
        debug: structs::Layout020::debug_read_data,
        read: structs::read_layout020,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 8 }, be: true, format: Format::Hex, modifiers: &[('&', 10811636951073380082)], count: None, bits: 9, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 17 }, be: true, format: Format::Plain, modifiers: &[('>', 59)], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 29 }, be: true, format: Format::Plain, modifiers: &[('>', 9)], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 8, shift: 30 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "bits0_5", kind: Kind::Bits { size: 8, shift: 38 }, be: true, format: Format::Hex, modifiers: &[('/', 783)], count: None, bits: 7, condition: None, offset: 0 },
            F { name: "bits0_6", kind: Kind::Bits { size: 8, shift: 45 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 19, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(48), bits: 0, condition: None, offset: 8 },
            F { name: "type_2", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(17), bits: 0, condition: None, offset: 200 },
            F { name: "number_of_3", kind: Kind::Ucs2String(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 217 },
            F { name: "field4", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 223 },
            F { name: "type_5", kind: Kind::Ucs2String(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 231 },
            F { name: "type_6", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 247 },
            F { name: "type_7", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 251 },
            F { name: "bits8_0", kind: Kind::Bits { size: 1, shift: 0 }, be: false, format: Format::Hex, modifiers: &[('|', 85)], count: None, bits: 8, condition: None, offset: 515 },
        ],
    },
    S {
        name: "Layout021",
        size: 48,
        debug: structs::Layout021::debug_read_data,
        read: structs::read_layout021,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Struct(2, 43), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "bits2_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 47 },
            F { name: "bits2_1", kind: Kind::Bits { size: 1, shift: 1 }, be: true, format: Format::Plain, modifiers: &[('%', 182)], count: None, bits: 7, condition: None, offset: 47 },
        ],
    },
    S {
        name: "Layout022",
        size: 26,
        debug: structs::Layout022::debug_read_data,
        read: structs::read_layout022,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Char, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "field2", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 5 },
            F { name: "field3", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 6 },
            F { name: "field4", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 10 },
            F { name: "type_5", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(0), bits: 0, condition: None, offset: 18 },
            F { name: "x6", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
            F { name: "number_of_7", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 20 },
            F { name: "value8", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[('|', 12633)], count: None, bits: 0, condition: None, offset: 24 },
        ],
    },
    S {
        name: "Layout023",
        size: 24,
        debug: structs::Layout023::debug_read_data,
        read: structs::read_layout023,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 4, shift: 12 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 20, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "bits2_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 31, condition: None, offset: 8 },
            F { name: "bits2_1", kind: Kind::Bits { size: 8, shift: 31 }, be: false, format: Format::Hex, modifiers: &[('/', 156)], count: None, bits: 33, condition: None, offset: 8 },
            F { name: "x3", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "type_4", kind: Kind::FatTimeDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
            F { name: "field5", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 22 },
        ],
    },
    S {
        name: "Layout024",
        size: 177,
        debug: structs::Layout024::debug_read_data,
        read: structs::read_layout024,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Hex, modifiers: &[('/', 87)], count: None, bits: 4, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 1, shift: 4 }, be: true, format: Format::Hex, modifiers: &[('/', 124), ('+', 62)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 1, shift: 6 }, be: true, format: Format::Plain, modifiers: &[('%', 253)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Struct(8, 50), be: false, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 1 },
            F { name: "type_2", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: Some(17), bits: 0, condition: None, offset: 101 },
            F { name: "x3", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 169 },
        ],
    },
    S {
        name: "Layout025",
        size: 672,
        debug: structs::Layout025::debug_read_data,
        read: structs::read_layout025,
        fields: &[
            F { name: "number_of_0", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: Some(18), bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 72 },
            F { name: "bits2_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 88 },
            F { name: "bits2_1", kind: Kind::Bits { size: 8, shift: 3 }, be: true, format: Format::Plain, modifiers: &[('>', 30)], count: None, bits: 8, condition: None, offset: 88 },
            F { name: "bits2_2", kind: Kind::Bits { size: 8, shift: 11 }, be: true, format: Format::Plain, modifiers: &[('<', 36)], count: None, bits: 9, condition: None, offset: 88 },
            F { name: "bits2_3", kind: Kind::Bits { size: 8, shift: 20 }, be: true, format: Format::Hex, modifiers: &[('%', 405)], count: None, bits: 40, condition: None, offset: 88 },
            F { name: "bits2_4", kind: Kind::Bits { size: 8, shift: 60 }, be: true, format: Format::Hex, modifiers: &[('<', 22)], count: None, bits: 4, condition: None, offset: 88 },
            F { name: "x3", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(15), bits: 0, condition: None, offset: 96 },
            F { name: "field4", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(48), bits: 0, condition: None, offset: 216 },
            F { name: "number_of_5", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: Some(31), bits: 0, condition: None, offset: 408 },
            F { name: "field6", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(50), bits: 0, condition: None, offset: 532 },
            F { name: "number_of_7", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: Some(18), bits: 0, condition: None, offset: 632 },
            F { name: "type_8", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 668 },
        ],
    },
    S {
        name: "Layout026",
        size: 14,
        debug: structs::Layout026::debug_read_data,
        read: structs::read_layout026,
        fields: &[
            F { name: "field0", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Plain, modifiers: &[('|', 70)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 12, condition: None, offset: 1 },
            F { name: "bits1_1", kind: Kind::Bits { size: 4, shift: 12 }, be: false, format: Format::Plain, modifiers: &[('/', 542), ('+', 901380033)], count: None, bits: 20, condition: None, offset: 1 },
            F { name: "type_2", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[('|', 60)], count: None, bits: 0, condition: None, offset: 5 },
            F { name: "value3", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[('/', 138)], count: None, bits: 0, condition: None, offset: 6 },
            F { name: "bits4_0", kind: Kind::Bits { size: 2, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 9, condition: None, offset: 10 },
            F { name: "bits4_1", kind: Kind::Bits { size: 2, shift: 9 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 10 },
            F { name: "x5", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 12 },
        ],
    },
    S {
        name: "Layout027",
        size: 76,
        debug: structs::Layout027::debug_read_data,
        read: structs::read_layout027,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('<', 41)], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 1 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 13 }, be: true, format: Format::Plain, modifiers: &[('<', 53)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 15 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 40, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 8, shift: 55 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 0 },
            F { name: "bits0_5", kind: Kind::Bits { size: 8, shift: 59 }, be: true, format: Format::Plain, modifiers: &[('^', 7306461695462401558)], count: None, bits: 5, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Char, modifiers: &[], count: Some(17), bits: 0, condition: None, offset: 8 },
            F { name: "x2", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 25 },
            F { name: "x3", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: Some(7), bits: 0, condition: None, offset: 29 },
            F { name: "bits4_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 57 },
            F { name: "bits4_1", kind: Kind::Bits { size: 8, shift: 2 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 3, condition: None, offset: 57 },
            F { name: "bits4_2", kind: Kind::Bits { size: 8, shift: 5 }, be: true, format: Format::Plain, modifiers: &[('|', 13674970622291592586)], count: None, bits: 17, condition: None, offset: 57 },
            F { name: "bits4_3", kind: Kind::Bits { size: 8, shift: 22 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 57 },
            F { name: "bits4_4", kind: Kind::Bits { size: 8, shift: 34 }, be: true, format: Format::Hex, modifiers: &[('^', 492789240159682566)], count: None, bits: 1, condition: None, offset: 57 },
            F { name: "bits4_5", kind: Kind::Bits { size: 8, shift: 35 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 57 },
            F { name: "bits4_6", kind: Kind::Bits { size: 8, shift: 42 }, be: true, format: Format::Hex, modifiers: &[('>', 51)], count: None, bits: 2, condition: None, offset: 57 },
            F { name: "bits4_7", kind: Kind::Bits { size: 8, shift: 44 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 57 },
            F { name: "bits4_8", kind: Kind::Bits { size: 8, shift: 45 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 57 },
            F { name: "bits4_9", kind: Kind::Bits { size: 8, shift: 46 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 18, condition: None, offset: 57 },
            F { name: "bits5_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 16, condition: None, offset: 65 },
            F { name: "type_6", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(0), bits: 0, condition: None, offset: 67 },
            F { name: "x7", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: Some(8), bits: 0, condition: None, offset: 67 },
            F { name: "type_8", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 75 },
        ],
    },
    S {
        name: "Layout028",
        size: 16,
        debug: structs::Layout028::debug_read_data,
        read: structs::read_layout028,
        fields: &[
            F { name: "value0", kind: Kind::ByteString(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout029",
        size: 29,
        debug: structs::Layout029::debug_read_data,
        read: structs::read_layout029,
        fields: &[
            F { name: "type_0", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "number_of_2", kind: Kind::FatTimeDate10Ms, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "field3", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 13 },
        ],
    },
    S {
        name: "Layout030",
        size: 85,
        debug: structs::Layout030::debug_read_data,
        read: structs::read_layout030,
        fields: &[
            F { name: "value0", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Utf16String(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "x2", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[('<', 8)], count: None, bits: 0, condition: None, offset: 34 },
            F { name: "field3", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 36 },
            F { name: "x4", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 44 },
            F { name: "value5", kind: Kind::Ucs2String(8), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 45 },
            F { name: "field6", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 61 },
            F { name: "field7", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 69 },
            F { name: "type_8", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 77 },
        ],
    },
    S {
        name: "Layout031",
        size: 412,
        debug: structs::Layout031::debug_read_data,
        read: structs::read_layout031,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[('|', 8161247523728978546)], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 1 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 5, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 6 }, be: false, format: Format::Plain, modifiers: &[('/', 883), ('+', 3382399996140775020)], count: None, bits: 4, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 10 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 23, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 8, shift: 33 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 17, condition: None, offset: 0 },
            F { name: "bits0_5", kind: Kind::Bits { size: 8, shift: 50 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 14, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "value2", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(50), bits: 0, condition: None, offset: 12 },
        ],
    },
    S {
        name: "Layout032",
        size: 117,
        debug: structs::Layout032::debug_read_data,
        read: structs::read_layout032,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(1)), offset: 1 },
            F { name: "value2", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(1)), offset: 3 },
            F { name: "number_of_4", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 7 },
            F { name: "x5", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(117)), offset: 23 },
            F { name: "type_6", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[('/', 76)], count: None, bits: 0, condition: Some(Condition::Equal(117)), offset: 31 },
            F { name: "number_of_7", kind: Kind::Struct(30, 85), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(117)), offset: 32 },
        ],
    },
    S {
        name: "Layout033",
        size: 40,
        debug: structs::Layout033::debug_read_data,
        read: structs::read_layout033,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout034",
        size: 8,
        debug: structs::Layout034::debug_read_data,
        read: structs::read_layout034,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout035",
        size: 9,
        debug: structs::Layout035::debug_read_data,
        read: structs::read_layout035,
        fields: &[
            F { name: "x0", kind: Kind::Ucs2String(1), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[('>', 14)], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "value2", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 6 },
            F { name: "bits3_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 7 },
            F { name: "bits3_1", kind: Kind::Bits { size: 2, shift: 7 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 9, condition: None, offset: 7 },
        ],
    },
    S {
        name: "Layout036",
        size: 74,
        debug: structs::Layout036::debug_read_data,
        read: structs::read_layout036,
        fields: &[
            F { name: "field0", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Char, modifiers: &[], count: Some(31), bits: 0, condition: None, offset: 1 },
            F { name: "x2", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(0), bits: 0, condition: None, offset: 32 },
            F { name: "number_of_3", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[('/', 817)], count: None, bits: 0, condition: None, offset: 32 },
            F { name: "type_4", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 34 },
            F { name: "value5", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Char, modifiers: &[], count: Some(32), bits: 0, condition: None, offset: 42 },
        ],
    },
    S {
        name: "Layout037",
        size: 36,
        debug: structs::Layout037::debug_read_data,
        read: structs::read_layout037,
        fields: &[
            F { name: "value0", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "number_of_2", kind: Kind::FatTimeDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 32 },
        ],
    },
    S {
        name: "Layout038",
        size: 34,
        debug: structs::Layout038::debug_read_data,
        read: structs::read_layout038,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::ByteString(32), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 1 },
            F { name: "x2", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Char, modifiers: &[('^', 226)], count: None, bits: 0, condition: None, offset: 33 },
        ],
    },
    S {
        name: "Layout039",
        size: 158,
        debug: structs::Layout039::debug_read_data,
        read: structs::read_layout039,
        fields: &[
            F { name: "type_0", kind: Kind::FatTimeDate, be: false, format: Format::Plain, modifiers: &[], count: Some(18), bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Hex, modifiers: &[('|', 1088974084640746874)], count: None, bits: 0, condition: None, offset: 72 },
            F { name: "field2", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[('/', 296), ('+', 911338195)], count: None, bits: 0, condition: None, offset: 80 },
            F { name: "x3", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(15), bits: 0, condition: None, offset: 84 },
            F { name: "value4", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 114 },
            F { name: "bits5_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 7, condition: None, offset: 116 },
            F { name: "bits5_1", kind: Kind::Bits { size: 8, shift: 7 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 9, condition: None, offset: 116 },
            F { name: "bits5_2", kind: Kind::Bits { size: 8, shift: 16 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 116 },
            F { name: "bits5_3", kind: Kind::Bits { size: 8, shift: 28 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 116 },
            F { name: "bits5_4", kind: Kind::Bits { size: 8, shift: 40 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 116 },
            F { name: "bits5_5", kind: Kind::Bits { size: 8, shift: 52 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 3, condition: None, offset: 116 },
            F { name: "bits5_6", kind: Kind::Bits { size: 8, shift: 55 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 116 },
            F { name: "bits5_7", kind: Kind::Bits { size: 8, shift: 56 }, be: true, format: Format::Hex, modifiers: &[('>', 5)], count: None, bits: 5, condition: None, offset: 116 },
            F { name: "bits5_8", kind: Kind::Bits { size: 8, shift: 61 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 116 },
            F { name: "bits5_9", kind: Kind::Bits { size: 8, shift: 62 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 116 },
            F { name: "bits6_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[('/', 2), ('+', 2561587098784804879)], count: None, bits: 4, condition: None, offset: 124 },
            F { name: "bits6_1", kind: Kind::Bits { size: 8, shift: 4 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 4, condition: None, offset: 124 },
            F { name: "bits6_2", kind: Kind::Bits { size: 8, shift: 8 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 40, condition: None, offset: 124 },
            F { name: "bits6_3", kind: Kind::Bits { size: 8, shift: 48 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 124 },
            F { name: "bits6_4", kind: Kind::Bits { size: 8, shift: 49 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 124 },
            F { name: "bits6_5", kind: Kind::Bits { size: 8, shift: 50 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 124 },
            F { name: "bits6_6", kind: Kind::Bits { size: 8, shift: 62 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 124 },
            F { name: "bits6_7", kind: Kind::Bits { size: 8, shift: 63 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 124 },
            F { name: "field7", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 132 },
            F { name: "type_8", kind: Kind::Ucs2String(11), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 136 },
        ],
    },
    S {
        name: "Layout040",
        size: 38,
        debug: structs::Layout040::debug_read_data,
        read: structs::read_layout040,
        fields: &[
            F { name: "number_of_0", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "bits2_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 10 },
            F { name: "bits2_1", kind: Kind::Bits { size: 4, shift: 1 }, be: true, format: Format::Hex, modifiers: &[('<', 27)], count: None, bits: 7, condition: None, offset: 10 },
            F { name: "bits2_2", kind: Kind::Bits { size: 4, shift: 8 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 17, condition: None, offset: 10 },
            F { name: "bits2_3", kind: Kind::Bits { size: 4, shift: 25 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 10 },
            F { name: "bits2_4", kind: Kind::Bits { size: 4, shift: 29 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 10 },
            F { name: "bits2_5", kind: Kind::Bits { size: 4, shift: 30 }, be: true, format: Format::Hex, modifiers: &[('&', 2665166356)], count: None, bits: 2, condition: None, offset: 10 },
            F { name: "x3", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 14 },
            F { name: "x4", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[('%', 861)], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "number_of_5", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
            F { name: "bits6_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 26 },
            F { name: "bits6_1", kind: Kind::Bits { size: 4, shift: 2 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 26 },
            F { name: "bits6_2", kind: Kind::Bits { size: 4, shift: 3 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 26 },
            F { name: "bits6_3", kind: Kind::Bits { size: 4, shift: 5 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 26 },
            F { name: "bits6_4", kind: Kind::Bits { size: 4, shift: 6 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 26, condition: None, offset: 26 },
            F { name: "field7", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 30 },
            F { name: "bits8_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('<', 4)], count: None, bits: 7, condition: None, offset: 34 },
            F { name: "bits8_1", kind: Kind::Bits { size: 4, shift: 7 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 34 },
            F { name: "bits8_2", kind: Kind::Bits { size: 4, shift: 10 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 12, condition: None, offset: 34 },
            F { name: "bits8_3", kind: Kind::Bits { size: 4, shift: 22 }, be: true, format: Format::Hex, modifiers: &[('/', 339)], count: None, bits: 1, condition: None, offset: 34 },
            F { name: "bits8_4", kind: Kind::Bits { size: 4, shift: 23 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 5, condition: None, offset: 34 },
            F { name: "bits8_5", kind: Kind::Bits { size: 4, shift: 28 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 34 },
        ],
    },
    S {
        name: "Layout041",
        size: 72,
        debug: structs::Layout041::debug_read_data,
        read: structs::read_layout041,
        fields: &[
            F { name: "field0", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[('>', 20)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "number_of_2", kind: Kind::Struct(22, 26), be: false, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 20 },
        ],
    },
    S {
        name: "Layout042",
        size: 8,
        debug: structs::Layout042::debug_read_data,
        read: structs::read_layout042,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[('|', 3185105042)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout043",
        size: 8,
        debug: structs::Layout043::debug_read_data,
        read: structs::read_layout043,
        fields: &[
            F { name: "field0", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout044",
        size: 6,
        debug: structs::Layout044::debug_read_data,
        read: structs::read_layout044,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('/', 398)], count: None, bits: 4, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 2, shift: 4 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 2 },
            F { name: "bits1_1", kind: Kind::Bits { size: 4, shift: 3 }, be: false, format: Format::Plain, modifiers: &[('/', 377), ('+', 822319539)], count: None, bits: 1, condition: None, offset: 2 },
            F { name: "bits1_2", kind: Kind::Bits { size: 4, shift: 4 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 2 },
            F { name: "bits1_3", kind: Kind::Bits { size: 4, shift: 6 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 2 },
            F { name: "bits1_4", kind: Kind::Bits { size: 4, shift: 9 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 23, condition: None, offset: 2 },
        ],
    },
    S {
        name: "Layout045",
        size: 1,
        debug: structs::Layout045::debug_read_data,
        read: structs::read_layout045,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout046",
        size: 12,
        debug: structs::Layout046::debug_read_data,
        read: structs::read_layout046,
        fields: &[
            F { name: "type_0", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "value2", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Char, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 6 },
            F { name: "number_of_3", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Hex, modifiers: &[('<', 4)], count: None, bits: 0, condition: Some(Condition::Greater(11)), offset: 11 },
        ],
    },
    S {
        name: "Layout047",
        size: 8,
        debug: structs::Layout047::debug_read_data,
        read: structs::read_layout047,
        fields: &[
            F { name: "x0", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "type_2", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 6 },
        ],
    },
    S {
        name: "Layout048",
        size: 9,
        debug: structs::Layout048::debug_read_data,
        read: structs::read_layout048,
        fields: &[
            F { name: "x0", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[('&', 21361)], count: None, bits: 0, condition: Some(Condition::Greater(5)), offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(5)), offset: 2 },
            F { name: "value2", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(5)), offset: 4 },
            F { name: "x4", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[('%', 100)], count: None, bits: 0, condition: None, offset: 6 },
            F { name: "value5", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 7 },
        ],
    },
    S {
        name: "Layout049",
        size: 49,
        debug: structs::Layout049::debug_read_data,
        read: structs::read_layout049,
        fields: &[
            F { name: "field0", kind: Kind::Struct(45, 1), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Hex, modifiers: &[('/', 147), ('+', 2723297438635480202)], count: None, bits: 0, condition: None, offset: 1 },
            F { name: "bits2_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 9 },
            F { name: "bits2_1", kind: Kind::Bits { size: 8, shift: 12 }, be: false, format: Format::Hex, modifiers: &[('/', 282), ('+', 3746523169140840572)], count: None, bits: 31, condition: None, offset: 9 },
            F { name: "bits2_2", kind: Kind::Bits { size: 8, shift: 43 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 9 },
            F { name: "bits2_3", kind: Kind::Bits { size: 8, shift: 46 }, be: false, format: Format::Hex, modifiers: &[('/', 507), ('+', 2852450026654701048)], count: None, bits: 18, condition: None, offset: 9 },
            F { name: "field3", kind: Kind::ByteString(2), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 17 },
            F { name: "value4", kind: Kind::Utf16String(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 19 },
            F { name: "field5", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Hex, modifiers: &[('/', 185)], count: None, bits: 0, condition: None, offset: 35 },
            F { name: "bits6_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 9, condition: None, offset: 37 },
            F { name: "bits6_1", kind: Kind::Bits { size: 8, shift: 9 }, be: false, format: Format::Hex, modifiers: &[('/', 606), ('+', 4429135406503936196)], count: None, bits: 4, condition: None, offset: 37 },
            F { name: "bits6_2", kind: Kind::Bits { size: 8, shift: 13 }, be: false, format: Format::Plain, modifiers: &[('&', 2162971591631285009)], count: None, bits: 7, condition: None, offset: 37 },
            F { name: "bits6_3", kind: Kind::Bits { size: 8, shift: 20 }, be: false, format: Format::Plain, modifiers: &[('>', 8)], count: None, bits: 7, condition: None, offset: 37 },
            F { name: "bits6_4", kind: Kind::Bits { size: 8, shift: 27 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 37 },
            F { name: "bits6_5", kind: Kind::Bits { size: 8, shift: 31 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 33, condition: None, offset: 37 },
            F { name: "value7", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 45 },
            F { name: "field8", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 47 },
        ],
    },
    S {
        name: "Layout050",
        size: 22,
        debug: structs::Layout050::debug_read_data,
        read: structs::read_layout050,
        fields: &[
            F { name: "value0", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "field2", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "number_of_3", kind: Kind::Utf16String(2), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
        ],
    },
    S {
        name: "Layout051",
        size: 272,
        debug: structs::Layout051::debug_read_data,
        read: structs::read_layout051,
        fields: &[
            F { name: "number_of_0", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "x2", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
            F { name: "value3", kind: Kind::Struct(17, 50), be: false, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 22 },
        ],
    },
    S {
        name: "Layout052",
        size: 194,
        debug: structs::Layout052::debug_read_data,
        read: structs::read_layout052,
        fields: &[
            F { name: "x0", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 66 },
        ],
    },
    S {
        name: "Layout053",
        size: 164,
        debug: structs::Layout053::debug_read_data,
        read: structs::read_layout053,
        fields: &[
            F { name: "field0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Utf16String(16), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "value2", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(15), bits: 0, condition: None, offset: 36 },
            F { name: "type_3", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 156 },
        ],
    },
    S {
        name: "Layout054",
        size: 30,
        debug: structs::Layout054::debug_read_data,
        read: structs::read_layout054,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[('>', 5)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[('%', 602)], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "field2", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[('^', 688)], count: None, bits: 0, condition: None, offset: 10 },
            F { name: "value3", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[('/', 957), ('+', 12673)], count: None, bits: 0, condition: Some(Condition::Equal(30)), offset: 12 },
            F { name: "number_of_4", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(30)), offset: 14 },
            F { name: "type_5", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(30)), offset: 22 },
        ],
    },
    S {
        name: "Layout055",
        size: 170,
        debug: structs::Layout055::debug_read_data,
        read: structs::read_layout055,
        fields: &[
            F { name: "value0", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Struct(16, 66), be: false, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 8 },
            F { name: "type_2", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 140 },
            F { name: "value3", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Hex, modifiers: &[('<', 26)], count: None, bits: 0, condition: None, offset: 144 },
            F { name: "x4", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 148 },
            F { name: "number_of_5", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 156 },
            F { name: "number_of_6", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 160 },
            F { name: "bits7_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Hex, modifiers: &[('&', 226)], count: None, bits: 1, condition: None, offset: 165 },
            F { name: "bits7_1", kind: Kind::Bits { size: 1, shift: 1 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 165 },
            F { name: "bits7_2", kind: Kind::Bits { size: 1, shift: 2 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 5, condition: None, offset: 165 },
            F { name: "bits7_3", kind: Kind::Bits { size: 1, shift: 7 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 165 },
            F { name: "x8", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 166 },
        ],
    },
    S {
        name: "Layout056",
        size: 434,
        debug: structs::Layout056::debug_read_data,
        read: structs::read_layout056,
        fields: &[
            F { name: "value0", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "type_2", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 16 },
            F { name: "field3", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 36 },
            F { name: "number_of_4", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 37 },
            F { name: "x5", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(48), bits: 0, condition: None, offset: 38 },
            F { name: "value6", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 230 },
            F { name: "field7", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 231 },
            F { name: "field8", kind: Kind::Struct(7, 123), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 311 },
        ],
    },
    S {
        name: "Layout057",
        size: 500,
        debug: structs::Layout057::debug_read_data,
        read: structs::read_layout057,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 2, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 16, condition: None, offset: 2 },
            F { name: "type_2", kind: Kind::ByteString(11), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "x3", kind: Kind::Struct(10, 97), be: false, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 15 },
        ],
    },
    S {
        name: "Layout058",
        size: 64,
        debug: structs::Layout058::debug_read_data,
        read: structs::read_layout058,
        fields: &[
            F { name: "x0", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: Some(32), bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout059",
        size: 49,
        debug: structs::Layout059::debug_read_data,
        read: structs::read_layout059,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 9, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 9 }, be: true, format: Format::Plain, modifiers: &[('<', 15)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 11 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 12 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 8, shift: 14 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_5", kind: Kind::Bits { size: 8, shift: 15 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 0 },
            F { name: "bits0_6", kind: Kind::Bits { size: 8, shift: 22 }, be: true, format: Format::Hex, modifiers: &[('^', 6340236728613536744)], count: None, bits: 3, condition: None, offset: 0 },
            F { name: "bits0_7", kind: Kind::Bits { size: 8, shift: 25 }, be: true, format: Format::Plain, modifiers: &[('|', 8958333989143601988)], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_8", kind: Kind::Bits { size: 8, shift: 26 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_9", kind: Kind::Bits { size: 8, shift: 27 }, be: true, format: Format::Hex, modifiers: &[('^', 12890163845269605245)], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "bits0_10", kind: Kind::Bits { size: 8, shift: 35 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 17, condition: None, offset: 0 },
            F { name: "bits0_11", kind: Kind::Bits { size: 8, shift: 52 }, be: true, format: Format::Plain, modifiers: &[('<', 60)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_12", kind: Kind::Bits { size: 8, shift: 54 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 10, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::ByteString(8), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "number_of_2", kind: Kind::ByteString(1), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "type_3", kind: Kind::Ucs2String(16), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 17 },
        ],
    },
    S {
        name: "Layout060",
        size: 26,
        debug: structs::Layout060::debug_read_data,
        read: structs::read_layout060,
        fields: &[
            F { name: "x0", kind: Kind::FatTimeDate10Ms, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 5 },
            F { name: "bits2_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 21 },
            F { name: "bits2_1", kind: Kind::Bits { size: 1, shift: 4 }, be: true, format: Format::Plain, modifiers: &[('/', 177), ('+', 49)], count: None, bits: 1, condition: None, offset: 21 },
            F { name: "bits2_2", kind: Kind::Bits { size: 1, shift: 5 }, be: true, format: Format::Hex, modifiers: &[('|', 167)], count: None, bits: 3, condition: None, offset: 21 },
            F { name: "number_of_3", kind: Kind::FatTimeDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 22 },
        ],
    },
    S {
        name: "Layout061",
        size: 11,
        debug: structs::Layout061::debug_read_data,
        read: structs::read_layout061,
        fields: &[
            F { name: "number_of_0", kind: Kind::ByteString(11), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout062",
        size: 4,
        debug: structs::Layout062::debug_read_data,
        read: structs::read_layout062,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[('^', 487010230)], count: None, bits: 17, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 4, shift: 17 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 3, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 4, shift: 20 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 4, shift: 27 }, be: false, format: Format::Plain, modifiers: &[('|', 305058224)], count: None, bits: 5, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout063",
        size: 458,
        debug: structs::Layout063::debug_read_data,
        read: structs::read_layout063,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: Some(50), bits: 0, condition: None, offset: 2 },
            F { name: "x2", kind: Kind::Int { size: 1, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 202 },
            F { name: "x3", kind: Kind::FatTimeDate10Ms, be: true, format: Format::Plain, modifiers: &[], count: Some(48), bits: 0, condition: None, offset: 218 },
        ],
    },
    S {
        name: "Layout064",
        size: 21,
        debug: structs::Layout064::debug_read_data,
        read: structs::read_layout064,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Hex, modifiers: &[('|', 254)], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[('%', 819)], count: None, bits: 0, condition: None, offset: 1 },
            F { name: "number_of_2", kind: Kind::ByteString(8), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 5 },
            F { name: "x3", kind: Kind::Ucs2String(4), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 13 },
        ],
    },
    S {
        name: "Layout065",
        size: 443,
        debug: structs::Layout065::debug_read_data,
        read: structs::read_layout065,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 128 },
            F { name: "field2", kind: Kind::Struct(29, 29), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 260 },
            F { name: "value3", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 289 },
            F { name: "bits4_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 5, condition: None, offset: 291 },
            F { name: "bits4_1", kind: Kind::Bits { size: 1, shift: 5 }, be: true, format: Format::Hex, modifiers: &[('>', 7)], count: None, bits: 3, condition: None, offset: 291 },
            F { name: "x5", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: Some(31), bits: 0, condition: None, offset: 292 },
            F { name: "field6", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Char, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 354 },
            F { name: "value7", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: Some(3), bits: 0, condition: None, offset: 387 },
            F { name: "bits8_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 40, condition: None, offset: 435 },
            F { name: "bits8_1", kind: Kind::Bits { size: 8, shift: 40 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 5, condition: None, offset: 435 },
            F { name: "bits8_2", kind: Kind::Bits { size: 8, shift: 45 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 9, condition: None, offset: 435 },
            F { name: "bits8_3", kind: Kind::Bits { size: 8, shift: 54 }, be: false, format: Format::Plain, modifiers: &[('^', 544990621411072855)], count: None, bits: 1, condition: None, offset: 435 },
            F { name: "bits8_4", kind: Kind::Bits { size: 8, shift: 55 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 8, condition: None, offset: 435 },
            F { name: "bits8_5", kind: Kind::Bits { size: 8, shift: 63 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 435 },
        ],
    },
    S {
        name: "Layout066",
        size: 2,
        debug: structs::Layout066::debug_read_data,
        read: structs::read_layout066,
        fields: &[
            F { name: "field0", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout067",
        size: 67,
        debug: structs::Layout067::debug_read_data,
        read: structs::read_layout067,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Hex, modifiers: &[('&', 16980755955216269623)], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 1 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 9 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 10 }, be: false, format: Format::Plain, modifiers: &[('/', 784)], count: None, bits: 5, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 8, shift: 15 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 31, condition: None, offset: 0 },
            F { name: "bits0_5", kind: Kind::Bits { size: 8, shift: 46 }, be: false, format: Format::Hex, modifiers: &[('&', 8548550479512462972)], count: None, bits: 18, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "number_of_2", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 24 },
            F { name: "bits3_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 28 },
            F { name: "bits3_1", kind: Kind::Bits { size: 4, shift: 1 }, be: true, format: Format::Hex, modifiers: &[('|', 1527412036)], count: None, bits: 2, condition: None, offset: 28 },
            F { name: "bits3_2", kind: Kind::Bits { size: 4, shift: 3 }, be: true, format: Format::Hex, modifiers: &[('/', 878), ('+', 789709321)], count: None, bits: 8, condition: None, offset: 28 },
            F { name: "bits3_3", kind: Kind::Bits { size: 4, shift: 11 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 21, condition: None, offset: 28 },
            F { name: "field4", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 32 },
            F { name: "bits5_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('|', 49173)], count: None, bits: 16, condition: None, offset: 48 },
            F { name: "type_6", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 50 },
            F { name: "number_of_7", kind: Kind::FatTimeDate10Ms, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 58 },
            F { name: "bits8_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('|', 285776370)], count: None, bits: 2, condition: None, offset: 63 },
            F { name: "bits8_1", kind: Kind::Bits { size: 4, shift: 2 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 63 },
            F { name: "bits8_2", kind: Kind::Bits { size: 4, shift: 9 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 8, condition: None, offset: 63 },
            F { name: "bits8_3", kind: Kind::Bits { size: 4, shift: 17 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 15, condition: None, offset: 63 },
        ],
    },
    S {
        name: "Layout068",
        size: 301,
        debug: structs::Layout068::debug_read_data,
        read: structs::read_layout068,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Plain, modifiers: &[('>', 4)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: Some(32), bits: 0, condition: None, offset: 4 },
            F { name: "number_of_2", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 260 },
            F { name: "number_of_3", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[('>', 56)], count: None, bits: 0, condition: None, offset: 268 },
            F { name: "type_4", kind: Kind::Utf16String(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 276 },
            F { name: "number_of_5", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 282 },
            F { name: "number_of_6", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 283 },
            F { name: "value7", kind: Kind::Struct(44, 6), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 287 },
            F { name: "bits8_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 5, condition: None, offset: 293 },
            F { name: "bits8_1", kind: Kind::Bits { size: 8, shift: 5 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 293 },
            F { name: "bits8_2", kind: Kind::Bits { size: 8, shift: 12 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 4, condition: None, offset: 293 },
            F { name: "bits8_3", kind: Kind::Bits { size: 8, shift: 16 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 293 },
            F { name: "bits8_4", kind: Kind::Bits { size: 8, shift: 20 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 293 },
            F { name: "bits8_5", kind: Kind::Bits { size: 8, shift: 21 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 7, condition: None, offset: 293 },
            F { name: "bits8_6", kind: Kind::Bits { size: 8, shift: 28 }, be: false, format: Format::Hex, modifiers: &[('%', 676)], count: None, bits: 8, condition: None, offset: 293 },
            F { name: "bits8_7", kind: Kind::Bits { size: 8, shift: 36 }, be: false, format: Format::Hex, modifiers: &[('%', 939)], count: None, bits: 1, condition: None, offset: 293 },
            F { name: "bits8_8", kind: Kind::Bits { size: 8, shift: 37 }, be: false, format: Format::Plain, modifiers: &[('>', 48)], count: None, bits: 9, condition: None, offset: 293 },
            F { name: "bits8_9", kind: Kind::Bits { size: 8, shift: 46 }, be: false, format: Format::Hex, modifiers: &[('/', 977), ('+', 359910367628748387)], count: None, bits: 18, condition: None, offset: 293 },
        ],
    },
    S {
        name: "Layout069",
        size: 117,
        debug: structs::Layout069::debug_read_data,
        read: structs::read_layout069,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 32, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Struct(47, 8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "x2", kind: Kind::Struct(67, 67), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 12 },
            F { name: "bits3_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 79 },
            F { name: "bits3_1", kind: Kind::Bits { size: 1, shift: 3 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 79 },
            F { name: "bits3_2", kind: Kind::Bits { size: 1, shift: 5 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 79 },
            F { name: "bits3_3", kind: Kind::Bits { size: 1, shift: 7 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 79 },
            F { name: "number_of_4", kind: Kind::Ucs2String(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 80 },
            F { name: "type_5", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(31), bits: 0, condition: None, offset: 86 },
        ],
    },
    S {
        name: "Layout070",
        size: 68,
        debug: structs::Layout070::debug_read_data,
        read: structs::read_layout070,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout071",
        size: 17,
        debug: structs::Layout071::debug_read_data,
        read: structs::read_layout071,
        fields: &[
            F { name: "number_of_0", kind: Kind::ByteString(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[('%', 109)], count: None, bits: 0, condition: None, offset: 16 },
        ],
    },
    S {
        name: "Layout072",
        size: 49,
        debug: structs::Layout072::debug_read_data,
        read: structs::read_layout072,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 16, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Utf16String(4), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "value2", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: Some(8), bits: 0, condition: None, offset: 10 },
            F { name: "number_of_3", kind: Kind::Utf16String(8), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 26 },
            F { name: "bits4_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 42 },
            F { name: "bits4_1", kind: Kind::Bits { size: 4, shift: 2 }, be: true, format: Format::Plain, modifiers: &[('>', 13)], count: None, bits: 12, condition: None, offset: 42 },
            F { name: "bits4_2", kind: Kind::Bits { size: 4, shift: 14 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 5, condition: None, offset: 42 },
            F { name: "bits4_3", kind: Kind::Bits { size: 4, shift: 19 }, be: true, format: Format::Plain, modifiers: &[('/', 725)], count: None, bits: 2, condition: None, offset: 42 },
            F { name: "bits4_4", kind: Kind::Bits { size: 4, shift: 21 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 5, condition: None, offset: 42 },
            F { name: "bits4_5", kind: Kind::Bits { size: 4, shift: 26 }, be: true, format: Format::Plain, modifiers: &[('&', 23928121)], count: None, bits: 4, condition: None, offset: 42 },
            F { name: "bits4_6", kind: Kind::Bits { size: 4, shift: 30 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 42 },
            F { name: "type_5", kind: Kind::ByteString(3), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 46 },
        ],
    },
    S {
        name: "Layout073",
        size: 4,
        debug: structs::Layout073::debug_read_data,
        read: structs::read_layout073,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 1 },
            F { name: "field2", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 3 },
        ],
    },
    S {
        name: "Layout074",
        size: 106,
        debug: structs::Layout074::debug_read_data,
        read: structs::read_layout074,
        fields: &[
            F { name: "field0", kind: Kind::Struct(62, 4), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(0)), offset: 0 },
            F { name: "field1", kind: Kind::Struct(59, 49), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(0)), offset: 4 },
            F { name: "type_3", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Hex, modifiers: &[('<', 6)], count: None, bits: 0, condition: Some(Condition::Greater(97)), offset: 53 },
            F { name: "type_4", kind: Kind::Struct(2, 43), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(97)), offset: 55 },
            F { name: "value6", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 98 },
        ],
    },
    S {
        name: "Layout075",
        size: 4,
        debug: structs::Layout075::debug_read_data,
        read: structs::read_layout075,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout076",
        size: 70,
        debug: structs::Layout076::debug_read_data,
        read: structs::read_layout076,
        fields: &[
            F { name: "field0", kind: Kind::ByteString(32), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::ByteString(16), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 32 },
            F { name: "x2", kind: Kind::Ucs2String(11), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 48 },
        ],
    },
    S {
        name: "Layout077",
        size: 12,
        debug: structs::Layout077::debug_read_data,
        read: structs::read_layout077,
        fields: &[
            F { name: "x0", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[('|', 46330)], count: None, bits: 0, condition: Some(Condition::Differs(0)), offset: 0 },
            F { name: "x2", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "value3", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 10 },
        ],
    },
    S {
        name: "Layout078",
        size: 58,
        debug: structs::Layout078::debug_read_data,
        read: structs::read_layout078,
        fields: &[
            F { name: "type_0", kind: Kind::ByteString(11), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(23)), offset: 11 },
            F { name: "value2", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(23)), offset: 15 },
            F { name: "value4", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(23)), offset: 23 },
            F { name: "number_of_5", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(23)), offset: 27 },
            F { name: "x7", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(58)), offset: 29 },
            F { name: "field8", kind: Kind::Struct(35, 9), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(58)), offset: 33 },
            F { name: "x9", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(58)), offset: 42 },
        ],
    },
    S {
        name: "Layout079",
        size: 3,
        debug: structs::Layout079::debug_read_data,
        read: structs::read_layout079,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('>', 2)], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 1 },
        ],
    },
    S {
        name: "Layout080",
        size: 166,
        debug: structs::Layout080::debug_read_data,
        read: structs::read_layout080,
        fields: &[
            F { name: "x0", kind: Kind::Ucs2String(32), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 4, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 8, condition: None, offset: 64 },
            F { name: "bits1_1", kind: Kind::Bits { size: 4, shift: 8 }, be: true, format: Format::Hex, modifiers: &[('%', 904)], count: None, bits: 5, condition: None, offset: 64 },
            F { name: "bits1_2", kind: Kind::Bits { size: 4, shift: 13 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 17, condition: None, offset: 64 },
            F { name: "bits1_3", kind: Kind::Bits { size: 4, shift: 30 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 2, condition: None, offset: 64 },
            F { name: "number_of_2", kind: Kind::Uuid, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 68 },
            F { name: "x3", kind: Kind::Ucs2String(2), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 84 },
            F { name: "field4", kind: Kind::Struct(36, 74), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 88 },
            F { name: "value5", kind: Kind::Utf16String(2), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 162 },
        ],
    },
    S {
        name: "Layout081",
        size: 466,
        debug: structs::Layout081::debug_read_data,
        read: structs::read_layout081,
        fields: &[
            F { name: "x0", kind: Kind::FatDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Utf16String(2), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "x2", kind: Kind::Struct(27, 76), be: false, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 6 },
            F { name: "x3", kind: Kind::Utf16String(8), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 386 },
            F { name: "type_4", kind: Kind::Ucs2String(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 402 },
            F { name: "value5", kind: Kind::Ucs2String(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 434 },
        ],
    },
    S {
        name: "Layout082",
        size: 84,
        debug: structs::Layout082::debug_read_data,
        read: structs::read_layout082,
        fields: &[
            F { name: "type_0", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Utf16String(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "number_of_2", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(8), bits: 0, condition: None, offset: 20 },
        ],
    },
    S {
        name: "Layout083",
        size: 26,
        debug: structs::Layout083::debug_read_data,
        read: structs::read_layout083,
        fields: &[
            F { name: "x0", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[('/', 522)], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Struct(43, 8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "field2", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "type_3", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
        ],
    },
    S {
        name: "Layout084",
        size: 8,
        debug: structs::Layout084::debug_read_data,
        read: structs::read_layout084,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "bits2_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 6 },
            F { name: "bits2_1", kind: Kind::Bits { size: 2, shift: 12 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 6 },
        ],
    },
    S {
        name: "Layout085",
        size: 13,
        debug: structs::Layout085::debug_read_data,
        read: structs::read_layout085,
        fields: &[
            F { name: "number_of_0", kind: Kind::ByteString(11), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[('>', 1)], count: None, bits: 16, condition: None, offset: 11 },
        ],
    },
    S {
        name: "Layout086",
        size: 84,
        debug: structs::Layout086::debug_read_data,
        read: structs::read_layout086,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[('|', 17505164269489487132)], count: None, bits: 0, condition: Some(Condition::Equal(8)), offset: 0 },
            F { name: "type_2", kind: Kind::FatTimeDate10Ms, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "field3", kind: Kind::Struct(8, 50), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(13)), offset: 13 },
            F { name: "number_of_4", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(13)), offset: 63 },
            F { name: "x5", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(13)), offset: 67 },
            F { name: "value7", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 68 },
            F { name: "x8", kind: Kind::FatDate, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(72)), offset: 72 },
            F { name: "type_9", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[('/', 377)], count: None, bits: 0, condition: Some(Condition::Differs(72)), offset: 74 },
            F { name: "value11", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Hex, modifiers: &[('^', 1685)], count: None, bits: 0, condition: None, offset: 82 },
        ],
    },
    S {
        name: "Layout087",
        size: 48,
        debug: structs::Layout087::debug_read_data,
        read: structs::read_layout087,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(8)), offset: 8 },
            F { name: "value2", kind: Kind::Filetime, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(8)), offset: 10 },
            F { name: "number_of_4", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(18)), offset: 18 },
            F { name: "field5", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[('>', 8)], count: None, bits: 0, condition: Some(Condition::Greater(18)), offset: 26 },
            F { name: "type_6", kind: Kind::Int { size: 4, signed: true }, be: false, format: Format::Plain, modifiers: &[('>', 27)], count: None, bits: 0, condition: Some(Condition::Greater(18)), offset: 28 },
            F { name: "x8", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 32 },
        ],
    },
    S {
        name: "Layout088",
        size: 250,
        debug: structs::Layout088::debug_read_data,
        read: structs::read_layout088,
        fields: &[
            F { name: "field0", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(50), bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: Some(48), bits: 0, condition: None, offset: 50 },
            F { name: "field2", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 242 },
        ],
    },
    S {
        name: "Layout089",
        size: 132,
        debug: structs::Layout089::debug_read_data,
        read: structs::read_layout089,
        fields: &[
            F { name: "value0", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "x1", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: Some(16), bits: 0, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout090",
        size: 46,
        debug: structs::Layout090::debug_read_data,
        read: structs::read_layout090,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: Some(32), bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: Some(7), bits: 0, condition: None, offset: 32 },
        ],
    },
    S {
        name: "Layout091",
        size: 8,
        debug: structs::Layout091::debug_read_data,
        read: structs::read_layout091,
        fields: &[
            F { name: "field0", kind: Kind::Ucs2String(4), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout092",
        size: 1,
        debug: structs::Layout092::debug_read_data,
        read: structs::read_layout092,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 1, shift: 0 }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 8, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout093",
        size: 129,
        debug: structs::Layout093::debug_read_data,
        read: structs::read_layout093,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[('>', 27)], count: None, bits: 4, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 8, shift: 4 }, be: false, format: Format::Hex, modifiers: &[('&', 1829394088065536620)], count: None, bits: 8, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 8, shift: 12 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 8, shift: 24 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 3, condition: None, offset: 0 },
            F { name: "bits0_4", kind: Kind::Bits { size: 8, shift: 27 }, be: false, format: Format::Plain, modifiers: &[('&', 16322468221638160553)], count: None, bits: 31, condition: None, offset: 0 },
            F { name: "bits0_5", kind: Kind::Bits { size: 8, shift: 58 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_6", kind: Kind::Bits { size: 8, shift: 59 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 5, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "type_2", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(7), bits: 0, condition: None, offset: 10 },
            F { name: "value3", kind: Kind::Int { size: 4, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 17 },
            F { name: "x4", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(3), bits: 0, condition: None, offset: 21 },
            F { name: "number_of_5", kind: Kind::Uuid, be: false, format: Format::Plain, modifiers: &[], count: Some(5), bits: 0, condition: None, offset: 33 },
            F { name: "bits6_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Hex, modifiers: &[('%', 396)], count: None, bits: 3, condition: None, offset: 113 },
            F { name: "bits6_1", kind: Kind::Bits { size: 4, shift: 3 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 29, condition: None, offset: 113 },
            F { name: "x7", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 117 },
            F { name: "bits8_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 23, condition: None, offset: 121 },
            F { name: "bits8_1", kind: Kind::Bits { size: 8, shift: 23 }, be: false, format: Format::Plain, modifiers: &[('^', 2574232373376000082)], count: None, bits: 5, condition: None, offset: 121 },
            F { name: "bits8_2", kind: Kind::Bits { size: 8, shift: 28 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 121 },
            F { name: "bits8_3", kind: Kind::Bits { size: 8, shift: 29 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 121 },
            F { name: "bits8_4", kind: Kind::Bits { size: 8, shift: 41 }, be: false, format: Format::Hex, modifiers: &[('^', 5235806113350453787)], count: None, bits: 4, condition: None, offset: 121 },
            F { name: "bits8_5", kind: Kind::Bits { size: 8, shift: 45 }, be: false, format: Format::Plain, modifiers: &[('^', 2089948651718813356)], count: None, bits: 7, condition: None, offset: 121 },
            F { name: "bits8_6", kind: Kind::Bits { size: 8, shift: 52 }, be: false, format: Format::Plain, modifiers: &[('/', 490), ('+', 3734401681509631568)], count: None, bits: 12, condition: None, offset: 121 },
        ],
    },
    S {
        name: "Layout094",
        size: 29,
        debug: structs::Layout094::debug_read_data,
        read: structs::read_layout094,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(0)), offset: 0 },
            F { name: "value2", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[('&', 3192218489007338564)], count: None, bits: 0, condition: Some(Condition::Equal(16)), offset: 4 },
            F { name: "value3", kind: Kind::Struct(73, 4), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(16)), offset: 12 },
            F { name: "field5", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[('^', 267923158)], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "type_6", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(29)), offset: 20 },
            F { name: "field7", kind: Kind::FatTimeDate10Ms, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(29)), offset: 24 },
        ],
    },
    S {
        name: "Layout095",
        size: 70,
        debug: structs::Layout095::debug_read_data,
        read: structs::read_layout095,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Plain, modifiers: &[('^', 31)], count: None, bits: 0, condition: Some(Condition::Greater(4)), offset: 0 },
            F { name: "field1", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(4)), offset: 1 },
            F { name: "type_3", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Hex, modifiers: &[('<', 29)], count: None, bits: 0, condition: None, offset: 5 },
            F { name: "value4", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Hex, modifiers: &[('%', 270)], count: None, bits: 0, condition: None, offset: 9 },
            F { name: "x5", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 17 },
            F { name: "x6", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 25 },
            F { name: "x7", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(29)), offset: 29 },
            F { name: "field8", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[('/', 126)], count: None, bits: 0, condition: Some(Condition::Differs(29)), offset: 37 },
            F { name: "number_of_9", kind: Kind::Int { size: 8, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(29)), offset: 45 },
            F { name: "type_11", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 53 },
            F { name: "x12", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(57)), offset: 54 },
            F { name: "type_13", kind: Kind::Int { size: 1, signed: true }, be: false, format: Format::Hex, modifiers: &[('<', 6)], count: None, bits: 0, condition: Some(Condition::AtLeast(57)), offset: 56 },
            F { name: "x15", kind: Kind::Struct(35, 9), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(70)), offset: 57 },
            F { name: "field16", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::AtLeast(70)), offset: 66 },
        ],
    },
    S {
        name: "Layout096",
        size: 8,
        debug: structs::Layout096::debug_read_data,
        read: structs::read_layout096,
        fields: &[
            F { name: "x0", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(0)), offset: 0 },
            F { name: "number_of_2", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
        ],
    },
    S {
        name: "Layout097",
        size: 25,
        debug: structs::Layout097::debug_read_data,
        read: structs::read_layout097,
        fields: &[
            F { name: "number_of_0", kind: Kind::Filetime, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(0)), offset: 0 },
            F { name: "number_of_2", kind: Kind::ByteString(1), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "type_3", kind: Kind::Int { size: 8, signed: false }, be: true, format: Format::Hex, modifiers: &[('%', 465)], count: None, bits: 0, condition: None, offset: 9 },
            F { name: "field4", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(17)), offset: 17 },
            F { name: "number_of_5", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(17)), offset: 21 },
        ],
    },
    S {
        name: "Layout098",
        size: 222,
        debug: structs::Layout098::debug_read_data,
        read: structs::read_layout098,
        fields: &[
            F { name: "value0", kind: Kind::Struct(36, 74), be: false, format: Format::Plain, modifiers: &[], count: Some(3), bits: 0, condition: None, offset: 0 },
        ],
    },
    S {
        name: "Layout099",
        size: 34,
        debug: structs::Layout099::debug_read_data,
        read: structs::read_layout099,
        fields: &[
            F { name: "x0", kind: Kind::Int { size: 4, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: None, offset: 16 },
            F { name: "number_of_2", kind: Kind::Ucs2String(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 18 },
        ],
    },
    S {
        name: "Layout100",
        size: 14,
        debug: structs::Layout100::debug_read_data,
        read: structs::read_layout100,
        fields: &[
            F { name: "bits0_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 12, condition: None, offset: 0 },
            F { name: "bits0_1", kind: Kind::Bits { size: 4, shift: 12 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 1, condition: None, offset: 0 },
            F { name: "bits0_2", kind: Kind::Bits { size: 4, shift: 13 }, be: false, format: Format::Hex, modifiers: &[('/', 48)], count: None, bits: 2, condition: None, offset: 0 },
            F { name: "bits0_3", kind: Kind::Bits { size: 4, shift: 15 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 17, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "field2", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 8 },
            F { name: "bits3_0", kind: Kind::Bits { size: 2, shift: 0 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 12 },
            F { name: "bits3_1", kind: Kind::Bits { size: 2, shift: 8 }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 12 },
        ],
    },
    S {
        name: "Layout101",
        size: 5,
        debug: structs::Layout101::debug_read_data,
        read: structs::read_layout101,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[('%', 857)], count: None, bits: 0, condition: Some(Condition::Equal(5)), offset: 0 },
            F { name: "field1", kind: Kind::Int { size: 1, signed: false }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(5)), offset: 2 },
            F { name: "type_2", kind: Kind::Int { size: 2, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(5)), offset: 3 },
        ],
    },
    S {
        name: "Layout102",
        size: 86,
        debug: structs::Layout102::debug_read_data,
        read: structs::read_layout102,
        fields: &[
            F { name: "value0", kind: Kind::ByteString(32), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "bits1_0", kind: Kind::Bits { size: 2, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 16, condition: None, offset: 32 },
            F { name: "type_2", kind: Kind::Utf16String(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 34 },
            F { name: "bits3_0", kind: Kind::Bits { size: 8, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 2, condition: None, offset: 66 },
            F { name: "bits3_1", kind: Kind::Bits { size: 8, shift: 2 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 23, condition: None, offset: 66 },
            F { name: "bits3_2", kind: Kind::Bits { size: 8, shift: 25 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 12, condition: None, offset: 66 },
            F { name: "bits3_3", kind: Kind::Bits { size: 8, shift: 37 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 4, condition: None, offset: 66 },
            F { name: "bits3_4", kind: Kind::Bits { size: 8, shift: 41 }, be: false, format: Format::Hex, modifiers: &[('&', 14386601562671989766)], count: None, bits: 1, condition: None, offset: 66 },
            F { name: "bits3_5", kind: Kind::Bits { size: 8, shift: 42 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 17, condition: None, offset: 66 },
            F { name: "bits3_6", kind: Kind::Bits { size: 8, shift: 59 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 5, condition: None, offset: 66 },
            F { name: "type_4", kind: Kind::ByteString(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 74 },
            F { name: "bits5_0", kind: Kind::Bits { size: 4, shift: 0 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 3, condition: None, offset: 82 },
            F { name: "bits5_1", kind: Kind::Bits { size: 4, shift: 3 }, be: false, format: Format::Hex, modifiers: &[('/', 233), ('+', 257007334)], count: None, bits: 9, condition: None, offset: 82 },
            F { name: "bits5_2", kind: Kind::Bits { size: 4, shift: 12 }, be: false, format: Format::Hex, modifiers: &[('|', 1948204918)], count: None, bits: 2, condition: None, offset: 82 },
            F { name: "bits5_3", kind: Kind::Bits { size: 4, shift: 14 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 82 },
            F { name: "bits5_4", kind: Kind::Bits { size: 4, shift: 22 }, be: false, format: Format::Plain, modifiers: &[('%', 954)], count: None, bits: 10, condition: None, offset: 82 },
        ],
    },
    S {
        name: "Layout103",
        size: 29,
        debug: structs::Layout103::debug_read_data,
        read: structs::read_layout103,
        fields: &[
            F { name: "field0", kind: Kind::PosixTime32, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "field1", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "x2", kind: Kind::ByteString(16), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 12 },
            F { name: "bits3_0", kind: Kind::Bits { size: 1, shift: 0 }, be: false, format: Format::Plain, modifiers: &[('/', 81), ('+', 61)], count: None, bits: 4, condition: None, offset: 28 },
            F { name: "bits3_1", kind: Kind::Bits { size: 1, shift: 4 }, be: false, format: Format::Plain, modifiers: &[('/', 203), ('+', 55)], count: None, bits: 4, condition: None, offset: 28 },
        ],
    },
    S {
        name: "Layout104",
        size: 42,
        debug: structs::Layout104::debug_read_data,
        read: structs::read_layout104,
        fields: &[
            F { name: "type_0", kind: Kind::Int { size: 2, signed: true }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 2 },
            F { name: "value2", kind: Kind::ByteString(32), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 6 },
            F { name: "x3", kind: Kind::FatTimeDate, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 38 },
        ],
    },
    S {
        name: "Layout105",
        size: 22,
        debug: structs::Layout105::debug_read_data,
        read: structs::read_layout105,
        fields: &[
            F { name: "value0", kind: Kind::Ucs2String(2), be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "type_1", kind: Kind::Ucs2String(8), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 4 },
            F { name: "bits2_0", kind: Kind::Bits { size: 2, shift: 0 }, be: false, format: Format::Hex, modifiers: &[], count: None, bits: 5, condition: None, offset: 20 },
            F { name: "bits2_1", kind: Kind::Bits { size: 2, shift: 5 }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 8, condition: None, offset: 20 },
            F { name: "bits2_2", kind: Kind::Bits { size: 2, shift: 13 }, be: false, format: Format::Plain, modifiers: &[('/', 657), ('+', 4604)], count: None, bits: 3, condition: None, offset: 20 },
        ],
    },
    S {
        name: "Layout106",
        size: 19,
        debug: structs::Layout106::debug_read_data,
        read: structs::read_layout106,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Equal(1)), offset: 0 },
            F { name: "value2", kind: Kind::Int { size: 2, signed: true }, be: true, format: Format::Plain, modifiers: &[('/', 99), ('+', 1149)], count: None, bits: 0, condition: Some(Condition::Differs(1)), offset: 1 },
            F { name: "number_of_4", kind: Kind::Struct(4, 6), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(12)), offset: 3 },
            F { name: "type_5", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Greater(12)), offset: 9 },
            F { name: "type_7", kind: Kind::Int { size: 4, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: Some(Condition::Differs(13)), offset: 13 },
            F { name: "number_of_8", kind: Kind::Int { size: 2, signed: false }, be: true, format: Format::Hex, modifiers: &[('%', 149)], count: None, bits: 0, condition: Some(Condition::Differs(13)), offset: 17 },
        ],
    },
    S {
        name: "Layout107",
        size: 6,
        debug: structs::Layout107::debug_read_data,
        read: structs::read_layout107,
        fields: &[
            F { name: "type_0", kind: Kind::ByteString(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
            F { name: "value1", kind: Kind::ByteString(3), be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 3 },
        ],
    },
    S {
        name: "Layout108",
        size: 195,
        debug: structs::Layout108::debug_read_data,
        read: structs::read_layout108,
        fields: &[
            F { name: "value0", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(4), bits: 0, condition: None, offset: 0 },
            F { name: "number_of_1", kind: Kind::PosixTime32, be: false, format: Format::Plain, modifiers: &[], count: Some(33), bits: 0, condition: None, offset: 4 },
            F { name: "type_2", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(17), bits: 0, condition: None, offset: 136 },
            F { name: "x3", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Plain, modifiers: &[], count: Some(8), bits: 0, condition: None, offset: 153 },
            F { name: "type_4", kind: Kind::Int { size: 8, signed: true }, be: true, format: Format::Plain, modifiers: &[], count: Some(2), bits: 0, condition: None, offset: 161 },
            F { name: "type_5", kind: Kind::Int { size: 1, signed: false }, be: true, format: Format::Hex, modifiers: &[], count: Some(18), bits: 0, condition: None, offset: 177 },
        ],
    },
    S {
        name: "Layout109",
        size: 8,
        debug: structs::Layout109::debug_read_data,
        read: structs::read_layout109,
        fields: &[
            F { name: "number_of_0", kind: Kind::Int { size: 8, signed: false }, be: false, format: Format::Plain, modifiers: &[], count: None, bits: 0, condition: None, offset: 0 },
        ],
    },
];
