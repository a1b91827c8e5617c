//! Only makes cargo compile the library; the programs of spec/Borrows.tla are compiled against it (tools/borrows.py).
pub extern crate rc_slice;
