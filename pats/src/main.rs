// Generated by tools/gen_patterns.py
use libmbus_macros::vif;
type Row = (&'static str, fn(u8) -> bool, Option<u8>);
const P: &[Row] = &[
	("E000 0000", |b| matches!(b, vif!(E000 0000)), Some(vif!(E000 0000))),
	("E000 0001", |b| matches!(b, vif!(E000 0001)), Some(vif!(E000 0001))),
	("E000 0010", |b| matches!(b, vif!(E000 0010)), Some(vif!(E000 0010))),
	("E000 0011", |b| matches!(b, vif!(E000 0011)), Some(vif!(E000 0011))),
	("E000 0100", |b| matches!(b, vif!(E000 0100)), Some(vif!(E000 0100))),
	("E000 0101", |b| matches!(b, vif!(E000 0101)), Some(vif!(E000 0101))),
	("E000 0110", |b| matches!(b, vif!(E000 0110)), Some(vif!(E000 0110))),
	("E000 0111", |b| matches!(b, vif!(E000 0111)), Some(vif!(E000 0111))),
	("E000 1000", |b| matches!(b, vif!(E000 1000)), Some(vif!(E000 1000))),
	("E000 1001", |b| matches!(b, vif!(E000 1001)), Some(vif!(E000 1001))),
	("E000 1010", |b| matches!(b, vif!(E000 1010)), Some(vif!(E000 1010))),
	("E000 1011", |b| matches!(b, vif!(E000 1011)), Some(vif!(E000 1011))),
	("E000 1100", |b| matches!(b, vif!(E000 1100)), Some(vif!(E000 1100))),
	("E000 1101", |b| matches!(b, vif!(E000 1101)), Some(vif!(E000 1101))),
	("E000 1110", |b| matches!(b, vif!(E000 1110)), Some(vif!(E000 1110))),
	("E000 1111", |b| matches!(b, vif!(E000 1111)), Some(vif!(E000 1111))),
	("E001 0000", |b| matches!(b, vif!(E001 0000)), Some(vif!(E001 0000))),
	("E001 0001", |b| matches!(b, vif!(E001 0001)), Some(vif!(E001 0001))),
	("E001 0010", |b| matches!(b, vif!(E001 0010)), Some(vif!(E001 0010))),
	("E001 0011", |b| matches!(b, vif!(E001 0011)), Some(vif!(E001 0011))),
	("E001 0100", |b| matches!(b, vif!(E001 0100)), Some(vif!(E001 0100))),
	("E001 0101", |b| matches!(b, vif!(E001 0101)), Some(vif!(E001 0101))),
	("E001 0110", |b| matches!(b, vif!(E001 0110)), Some(vif!(E001 0110))),
	("E001 0111", |b| matches!(b, vif!(E001 0111)), Some(vif!(E001 0111))),
	("E001 1000", |b| matches!(b, vif!(E001 1000)), Some(vif!(E001 1000))),
	("E001 1001", |b| matches!(b, vif!(E001 1001)), Some(vif!(E001 1001))),
	("E001 1010", |b| matches!(b, vif!(E001 1010)), Some(vif!(E001 1010))),
	("E001 1011", |b| matches!(b, vif!(E001 1011)), Some(vif!(E001 1011))),
	("E001 1100", |b| matches!(b, vif!(E001 1100)), Some(vif!(E001 1100))),
	("E001 1101", |b| matches!(b, vif!(E001 1101)), Some(vif!(E001 1101))),
	("E001 1110", |b| matches!(b, vif!(E001 1110)), Some(vif!(E001 1110))),
	("E001 1111", |b| matches!(b, vif!(E001 1111)), Some(vif!(E001 1111))),
	("E010 0000", |b| matches!(b, vif!(E010 0000)), Some(vif!(E010 0000))),
	("E010 0001", |b| matches!(b, vif!(E010 0001)), Some(vif!(E010 0001))),
	("E010 0010", |b| matches!(b, vif!(E010 0010)), Some(vif!(E010 0010))),
	("E010 0011", |b| matches!(b, vif!(E010 0011)), Some(vif!(E010 0011))),
	("E010 0100", |b| matches!(b, vif!(E010 0100)), Some(vif!(E010 0100))),
	("E010 0101", |b| matches!(b, vif!(E010 0101)), Some(vif!(E010 0101))),
	("E010 0110", |b| matches!(b, vif!(E010 0110)), Some(vif!(E010 0110))),
	("E010 0111", |b| matches!(b, vif!(E010 0111)), Some(vif!(E010 0111))),
	("E010 1000", |b| matches!(b, vif!(E010 1000)), Some(vif!(E010 1000))),
	("E010 1001", |b| matches!(b, vif!(E010 1001)), Some(vif!(E010 1001))),
	("E010 1010", |b| matches!(b, vif!(E010 1010)), Some(vif!(E010 1010))),
	("E010 1011", |b| matches!(b, vif!(E010 1011)), Some(vif!(E010 1011))),
	("E010 1100", |b| matches!(b, vif!(E010 1100)), Some(vif!(E010 1100))),
	("E010 1101", |b| matches!(b, vif!(E010 1101)), Some(vif!(E010 1101))),
	("E010 1110", |b| matches!(b, vif!(E010 1110)), Some(vif!(E010 1110))),
	("E010 1111", |b| matches!(b, vif!(E010 1111)), Some(vif!(E010 1111))),
	("E011 0000", |b| matches!(b, vif!(E011 0000)), Some(vif!(E011 0000))),
	("E011 0001", |b| matches!(b, vif!(E011 0001)), Some(vif!(E011 0001))),
	("E011 0010", |b| matches!(b, vif!(E011 0010)), Some(vif!(E011 0010))),
	("E011 0011", |b| matches!(b, vif!(E011 0011)), Some(vif!(E011 0011))),
	("E011 0100", |b| matches!(b, vif!(E011 0100)), Some(vif!(E011 0100))),
	("E011 0101", |b| matches!(b, vif!(E011 0101)), Some(vif!(E011 0101))),
	("E011 0110", |b| matches!(b, vif!(E011 0110)), Some(vif!(E011 0110))),
	("E011 0111", |b| matches!(b, vif!(E011 0111)), Some(vif!(E011 0111))),
	("E011 1000", |b| matches!(b, vif!(E011 1000)), Some(vif!(E011 1000))),
	("E011 1001", |b| matches!(b, vif!(E011 1001)), Some(vif!(E011 1001))),
	("E011 1010", |b| matches!(b, vif!(E011 1010)), Some(vif!(E011 1010))),
	("E011 1011", |b| matches!(b, vif!(E011 1011)), Some(vif!(E011 1011))),
	("E011 1100", |b| matches!(b, vif!(E011 1100)), Some(vif!(E011 1100))),
	("E011 1101", |b| matches!(b, vif!(E011 1101)), Some(vif!(E011 1101))),
	("E011 1110", |b| matches!(b, vif!(E011 1110)), Some(vif!(E011 1110))),
	("E011 1111", |b| matches!(b, vif!(E011 1111)), Some(vif!(E011 1111))),
	("E100 0000", |b| matches!(b, vif!(E100 0000)), Some(vif!(E100 0000))),
	("E100 0001", |b| matches!(b, vif!(E100 0001)), Some(vif!(E100 0001))),
	("E100 0010", |b| matches!(b, vif!(E100 0010)), Some(vif!(E100 0010))),
	("E100 0011", |b| matches!(b, vif!(E100 0011)), Some(vif!(E100 0011))),
	("E100 0100", |b| matches!(b, vif!(E100 0100)), Some(vif!(E100 0100))),
	("E100 0101", |b| matches!(b, vif!(E100 0101)), Some(vif!(E100 0101))),
	("E100 0110", |b| matches!(b, vif!(E100 0110)), Some(vif!(E100 0110))),
	("E100 0111", |b| matches!(b, vif!(E100 0111)), Some(vif!(E100 0111))),
	("E100 1000", |b| matches!(b, vif!(E100 1000)), Some(vif!(E100 1000))),
	("E100 1001", |b| matches!(b, vif!(E100 1001)), Some(vif!(E100 1001))),
	("E100 1010", |b| matches!(b, vif!(E100 1010)), Some(vif!(E100 1010))),
	("E100 1011", |b| matches!(b, vif!(E100 1011)), Some(vif!(E100 1011))),
	("E100 1100", |b| matches!(b, vif!(E100 1100)), Some(vif!(E100 1100))),
	("E100 1101", |b| matches!(b, vif!(E100 1101)), Some(vif!(E100 1101))),
	("E100 1110", |b| matches!(b, vif!(E100 1110)), Some(vif!(E100 1110))),
	("E100 1111", |b| matches!(b, vif!(E100 1111)), Some(vif!(E100 1111))),
	("E101 0000", |b| matches!(b, vif!(E101 0000)), Some(vif!(E101 0000))),
	("E101 0001", |b| matches!(b, vif!(E101 0001)), Some(vif!(E101 0001))),
	("E101 0010", |b| matches!(b, vif!(E101 0010)), Some(vif!(E101 0010))),
	("E101 0011", |b| matches!(b, vif!(E101 0011)), Some(vif!(E101 0011))),
	("E101 0100", |b| matches!(b, vif!(E101 0100)), Some(vif!(E101 0100))),
	("E101 0101", |b| matches!(b, vif!(E101 0101)), Some(vif!(E101 0101))),
	("E101 0110", |b| matches!(b, vif!(E101 0110)), Some(vif!(E101 0110))),
	("E101 0111", |b| matches!(b, vif!(E101 0111)), Some(vif!(E101 0111))),
	("E101 1000", |b| matches!(b, vif!(E101 1000)), Some(vif!(E101 1000))),
	("E101 1001", |b| matches!(b, vif!(E101 1001)), Some(vif!(E101 1001))),
	("E101 1010", |b| matches!(b, vif!(E101 1010)), Some(vif!(E101 1010))),
	("E101 1011", |b| matches!(b, vif!(E101 1011)), Some(vif!(E101 1011))),
	("E101 1100", |b| matches!(b, vif!(E101 1100)), Some(vif!(E101 1100))),
	("E101 1101", |b| matches!(b, vif!(E101 1101)), Some(vif!(E101 1101))),
	("E101 1110", |b| matches!(b, vif!(E101 1110)), Some(vif!(E101 1110))),
	("E101 1111", |b| matches!(b, vif!(E101 1111)), Some(vif!(E101 1111))),
	("E110 0000", |b| matches!(b, vif!(E110 0000)), Some(vif!(E110 0000))),
	("E110 0001", |b| matches!(b, vif!(E110 0001)), Some(vif!(E110 0001))),
	("E110 0010", |b| matches!(b, vif!(E110 0010)), Some(vif!(E110 0010))),
	("E110 0011", |b| matches!(b, vif!(E110 0011)), Some(vif!(E110 0011))),
	("E110 0100", |b| matches!(b, vif!(E110 0100)), Some(vif!(E110 0100))),
	("E110 0101", |b| matches!(b, vif!(E110 0101)), Some(vif!(E110 0101))),
	("E110 0110", |b| matches!(b, vif!(E110 0110)), Some(vif!(E110 0110))),
	("E110 0111", |b| matches!(b, vif!(E110 0111)), Some(vif!(E110 0111))),
	("E110 1000", |b| matches!(b, vif!(E110 1000)), Some(vif!(E110 1000))),
	("E110 1001", |b| matches!(b, vif!(E110 1001)), Some(vif!(E110 1001))),
	("E110 1010", |b| matches!(b, vif!(E110 1010)), Some(vif!(E110 1010))),
	("E110 1011", |b| matches!(b, vif!(E110 1011)), Some(vif!(E110 1011))),
	("E110 1100", |b| matches!(b, vif!(E110 1100)), Some(vif!(E110 1100))),
	("E110 1101", |b| matches!(b, vif!(E110 1101)), Some(vif!(E110 1101))),
	("E110 1110", |b| matches!(b, vif!(E110 1110)), Some(vif!(E110 1110))),
	("E110 1111", |b| matches!(b, vif!(E110 1111)), Some(vif!(E110 1111))),
	("E111 0000", |b| matches!(b, vif!(E111 0000)), Some(vif!(E111 0000))),
	("E111 0001", |b| matches!(b, vif!(E111 0001)), Some(vif!(E111 0001))),
	("E111 0010", |b| matches!(b, vif!(E111 0010)), Some(vif!(E111 0010))),
	("E111 0011", |b| matches!(b, vif!(E111 0011)), Some(vif!(E111 0011))),
	("E111 0100", |b| matches!(b, vif!(E111 0100)), Some(vif!(E111 0100))),
	("E111 0101", |b| matches!(b, vif!(E111 0101)), Some(vif!(E111 0101))),
	("E111 0110", |b| matches!(b, vif!(E111 0110)), Some(vif!(E111 0110))),
	("E111 0111", |b| matches!(b, vif!(E111 0111)), Some(vif!(E111 0111))),
	("E111 1000", |b| matches!(b, vif!(E111 1000)), Some(vif!(E111 1000))),
	("E111 1001", |b| matches!(b, vif!(E111 1001)), Some(vif!(E111 1001))),
	("E111 1010", |b| matches!(b, vif!(E111 1010)), Some(vif!(E111 1010))),
	("E111 1011", |b| matches!(b, vif!(E111 1011)), Some(vif!(E111 1011))),
	("E111 1100", |b| matches!(b, vif!(E111 1100)), Some(vif!(E111 1100))),
	("E111 1101", |b| matches!(b, vif!(E111 1101)), Some(vif!(E111 1101))),
	("E111 1110", |b| matches!(b, vif!(E111 1110)), Some(vif!(E111 1110))),
	("E111 1111", |b| matches!(b, vif!(E111 1111)), Some(vif!(E111 1111))),
	("E000 000n", |b| matches!(b, vif!(E000 000n)), None),
	("E000 000p", |b| matches!(b, vif!(E000 000p)), None),
	("E000 001n", |b| matches!(b, vif!(E000 001n)), None),
	("E000 001p", |b| matches!(b, vif!(E000 001p)), None),
	("E000 010n", |b| matches!(b, vif!(E000 010n)), None),
	("E000 010p", |b| matches!(b, vif!(E000 010p)), None),
	("E000 011n", |b| matches!(b, vif!(E000 011n)), None),
	("E000 011p", |b| matches!(b, vif!(E000 011p)), None),
	("E000 100n", |b| matches!(b, vif!(E000 100n)), None),
	("E000 100p", |b| matches!(b, vif!(E000 100p)), None),
	("E000 101n", |b| matches!(b, vif!(E000 101n)), None),
	("E000 101p", |b| matches!(b, vif!(E000 101p)), None),
	("E000 110n", |b| matches!(b, vif!(E000 110n)), None),
	("E000 110p", |b| matches!(b, vif!(E000 110p)), None),
	("E000 111n", |b| matches!(b, vif!(E000 111n)), None),
	("E000 111p", |b| matches!(b, vif!(E000 111p)), None),
	("E001 000n", |b| matches!(b, vif!(E001 000n)), None),
	("E001 000p", |b| matches!(b, vif!(E001 000p)), None),
	("E001 001n", |b| matches!(b, vif!(E001 001n)), None),
	("E001 001p", |b| matches!(b, vif!(E001 001p)), None),
	("E001 010n", |b| matches!(b, vif!(E001 010n)), None),
	("E001 010p", |b| matches!(b, vif!(E001 010p)), None),
	("E001 011n", |b| matches!(b, vif!(E001 011n)), None),
	("E001 011p", |b| matches!(b, vif!(E001 011p)), None),
	("E001 100n", |b| matches!(b, vif!(E001 100n)), None),
	("E001 100p", |b| matches!(b, vif!(E001 100p)), None),
	("E001 101n", |b| matches!(b, vif!(E001 101n)), None),
	("E001 101p", |b| matches!(b, vif!(E001 101p)), None),
	("E001 110n", |b| matches!(b, vif!(E001 110n)), None),
	("E001 110p", |b| matches!(b, vif!(E001 110p)), None),
	("E001 111n", |b| matches!(b, vif!(E001 111n)), None),
	("E001 111p", |b| matches!(b, vif!(E001 111p)), None),
	("E010 000n", |b| matches!(b, vif!(E010 000n)), None),
	("E010 000p", |b| matches!(b, vif!(E010 000p)), None),
	("E010 001n", |b| matches!(b, vif!(E010 001n)), None),
	("E010 001p", |b| matches!(b, vif!(E010 001p)), None),
	("E010 010n", |b| matches!(b, vif!(E010 010n)), None),
	("E010 010p", |b| matches!(b, vif!(E010 010p)), None),
	("E010 011n", |b| matches!(b, vif!(E010 011n)), None),
	("E010 011p", |b| matches!(b, vif!(E010 011p)), None),
	("E010 100n", |b| matches!(b, vif!(E010 100n)), None),
	("E010 100p", |b| matches!(b, vif!(E010 100p)), None),
	("E010 101n", |b| matches!(b, vif!(E010 101n)), None),
	("E010 101p", |b| matches!(b, vif!(E010 101p)), None),
	("E010 110n", |b| matches!(b, vif!(E010 110n)), None),
	("E010 110p", |b| matches!(b, vif!(E010 110p)), None),
	("E010 111n", |b| matches!(b, vif!(E010 111n)), None),
	("E010 111p", |b| matches!(b, vif!(E010 111p)), None),
	("E011 000n", |b| matches!(b, vif!(E011 000n)), None),
	("E011 000p", |b| matches!(b, vif!(E011 000p)), None),
	("E011 001n", |b| matches!(b, vif!(E011 001n)), None),
	("E011 001p", |b| matches!(b, vif!(E011 001p)), None),
	("E011 010n", |b| matches!(b, vif!(E011 010n)), None),
	("E011 010p", |b| matches!(b, vif!(E011 010p)), None),
	("E011 011n", |b| matches!(b, vif!(E011 011n)), None),
	("E011 011p", |b| matches!(b, vif!(E011 011p)), None),
	("E011 100n", |b| matches!(b, vif!(E011 100n)), None),
	("E011 100p", |b| matches!(b, vif!(E011 100p)), None),
	("E011 101n", |b| matches!(b, vif!(E011 101n)), None),
	("E011 101p", |b| matches!(b, vif!(E011 101p)), None),
	("E011 110n", |b| matches!(b, vif!(E011 110n)), None),
	("E011 110p", |b| matches!(b, vif!(E011 110p)), None),
	("E011 111n", |b| matches!(b, vif!(E011 111n)), None),
	("E011 111p", |b| matches!(b, vif!(E011 111p)), None),
	("E100 000n", |b| matches!(b, vif!(E100 000n)), None),
	("E100 000p", |b| matches!(b, vif!(E100 000p)), None),
	("E100 001n", |b| matches!(b, vif!(E100 001n)), None),
	("E100 001p", |b| matches!(b, vif!(E100 001p)), None),
	("E100 010n", |b| matches!(b, vif!(E100 010n)), None),
	("E100 010p", |b| matches!(b, vif!(E100 010p)), None),
	("E100 011n", |b| matches!(b, vif!(E100 011n)), None),
	("E100 011p", |b| matches!(b, vif!(E100 011p)), None),
	("E100 100n", |b| matches!(b, vif!(E100 100n)), None),
	("E100 100p", |b| matches!(b, vif!(E100 100p)), None),
	("E100 101n", |b| matches!(b, vif!(E100 101n)), None),
	("E100 101p", |b| matches!(b, vif!(E100 101p)), None),
	("E100 110n", |b| matches!(b, vif!(E100 110n)), None),
	("E100 110p", |b| matches!(b, vif!(E100 110p)), None),
	("E100 111n", |b| matches!(b, vif!(E100 111n)), None),
	("E100 111p", |b| matches!(b, vif!(E100 111p)), None),
	("E101 000n", |b| matches!(b, vif!(E101 000n)), None),
	("E101 000p", |b| matches!(b, vif!(E101 000p)), None),
	("E101 001n", |b| matches!(b, vif!(E101 001n)), None),
	("E101 001p", |b| matches!(b, vif!(E101 001p)), None),
	("E101 010n", |b| matches!(b, vif!(E101 010n)), None),
	("E101 010p", |b| matches!(b, vif!(E101 010p)), None),
	("E101 011n", |b| matches!(b, vif!(E101 011n)), None),
	("E101 011p", |b| matches!(b, vif!(E101 011p)), None),
	("E101 100n", |b| matches!(b, vif!(E101 100n)), None),
	("E101 100p", |b| matches!(b, vif!(E101 100p)), None),
	("E101 101n", |b| matches!(b, vif!(E101 101n)), None),
	("E101 101p", |b| matches!(b, vif!(E101 101p)), None),
	("E101 110n", |b| matches!(b, vif!(E101 110n)), None),
	("E101 110p", |b| matches!(b, vif!(E101 110p)), None),
	("E101 111n", |b| matches!(b, vif!(E101 111n)), None),
	("E101 111p", |b| matches!(b, vif!(E101 111p)), None),
	("E110 000n", |b| matches!(b, vif!(E110 000n)), None),
	("E110 000p", |b| matches!(b, vif!(E110 000p)), None),
	("E110 001n", |b| matches!(b, vif!(E110 001n)), None),
	("E110 001p", |b| matches!(b, vif!(E110 001p)), None),
	("E110 010n", |b| matches!(b, vif!(E110 010n)), None),
	("E110 010p", |b| matches!(b, vif!(E110 010p)), None),
	("E110 011n", |b| matches!(b, vif!(E110 011n)), None),
	("E110 011p", |b| matches!(b, vif!(E110 011p)), None),
	("E110 100n", |b| matches!(b, vif!(E110 100n)), None),
	("E110 100p", |b| matches!(b, vif!(E110 100p)), None),
	("E110 101n", |b| matches!(b, vif!(E110 101n)), None),
	("E110 101p", |b| matches!(b, vif!(E110 101p)), None),
	("E110 110n", |b| matches!(b, vif!(E110 110n)), None),
	("E110 110p", |b| matches!(b, vif!(E110 110p)), None),
	("E110 111n", |b| matches!(b, vif!(E110 111n)), None),
	("E110 111p", |b| matches!(b, vif!(E110 111p)), None),
	("E111 000n", |b| matches!(b, vif!(E111 000n)), None),
	("E111 000p", |b| matches!(b, vif!(E111 000p)), None),
	("E111 001n", |b| matches!(b, vif!(E111 001n)), None),
	("E111 001p", |b| matches!(b, vif!(E111 001p)), None),
	("E111 010n", |b| matches!(b, vif!(E111 010n)), None),
	("E111 010p", |b| matches!(b, vif!(E111 010p)), None),
	("E111 011n", |b| matches!(b, vif!(E111 011n)), None),
	("E111 011p", |b| matches!(b, vif!(E111 011p)), None),
	("E111 100n", |b| matches!(b, vif!(E111 100n)), None),
	("E111 100p", |b| matches!(b, vif!(E111 100p)), None),
	("E111 101n", |b| matches!(b, vif!(E111 101n)), None),
	("E111 101p", |b| matches!(b, vif!(E111 101p)), None),
	("E111 110n", |b| matches!(b, vif!(E111 110n)), None),
	("E111 110p", |b| matches!(b, vif!(E111 110p)), None),
	("E111 111n", |b| matches!(b, vif!(E111 111n)), None),
	("E111 111p", |b| matches!(b, vif!(E111 111p)), None),
	("E000 00nn", |b| matches!(b, vif!(E000 00nn)), None),
	("E000 00np", |b| matches!(b, vif!(E000 00np)), None),
	("E000 00pn", |b| matches!(b, vif!(E000 00pn)), None),
	("E000 00pp", |b| matches!(b, vif!(E000 00pp)), None),
	("E000 01nn", |b| matches!(b, vif!(E000 01nn)), None),
	("E000 01np", |b| matches!(b, vif!(E000 01np)), None),
	("E000 01pn", |b| matches!(b, vif!(E000 01pn)), None),
	("E000 01pp", |b| matches!(b, vif!(E000 01pp)), None),
	("E000 10nn", |b| matches!(b, vif!(E000 10nn)), None),
	("E000 10np", |b| matches!(b, vif!(E000 10np)), None),
	("E000 10pn", |b| matches!(b, vif!(E000 10pn)), None),
	("E000 10pp", |b| matches!(b, vif!(E000 10pp)), None),
	("E000 11nn", |b| matches!(b, vif!(E000 11nn)), None),
	("E000 11np", |b| matches!(b, vif!(E000 11np)), None),
	("E000 11pn", |b| matches!(b, vif!(E000 11pn)), None),
	("E000 11pp", |b| matches!(b, vif!(E000 11pp)), None),
	("E001 00nn", |b| matches!(b, vif!(E001 00nn)), None),
	("E001 00np", |b| matches!(b, vif!(E001 00np)), None),
	("E001 00pn", |b| matches!(b, vif!(E001 00pn)), None),
	("E001 00pp", |b| matches!(b, vif!(E001 00pp)), None),
	("E001 01nn", |b| matches!(b, vif!(E001 01nn)), None),
	("E001 01np", |b| matches!(b, vif!(E001 01np)), None),
	("E001 01pn", |b| matches!(b, vif!(E001 01pn)), None),
	("E001 01pp", |b| matches!(b, vif!(E001 01pp)), None),
	("E001 10nn", |b| matches!(b, vif!(E001 10nn)), None),
	("E001 10np", |b| matches!(b, vif!(E001 10np)), None),
	("E001 10pn", |b| matches!(b, vif!(E001 10pn)), None),
	("E001 10pp", |b| matches!(b, vif!(E001 10pp)), None),
	("E001 11nn", |b| matches!(b, vif!(E001 11nn)), None),
	("E001 11np", |b| matches!(b, vif!(E001 11np)), None),
	("E001 11pn", |b| matches!(b, vif!(E001 11pn)), None),
	("E001 11pp", |b| matches!(b, vif!(E001 11pp)), None),
	("E010 00nn", |b| matches!(b, vif!(E010 00nn)), None),
	("E010 00np", |b| matches!(b, vif!(E010 00np)), None),
	("E010 00pn", |b| matches!(b, vif!(E010 00pn)), None),
	("E010 00pp", |b| matches!(b, vif!(E010 00pp)), None),
	("E010 01nn", |b| matches!(b, vif!(E010 01nn)), None),
	("E010 01np", |b| matches!(b, vif!(E010 01np)), None),
	("E010 01pn", |b| matches!(b, vif!(E010 01pn)), None),
	("E010 01pp", |b| matches!(b, vif!(E010 01pp)), None),
	("E010 10nn", |b| matches!(b, vif!(E010 10nn)), None),
	("E010 10np", |b| matches!(b, vif!(E010 10np)), None),
	("E010 10pn", |b| matches!(b, vif!(E010 10pn)), None),
	("E010 10pp", |b| matches!(b, vif!(E010 10pp)), None),
	("E010 11nn", |b| matches!(b, vif!(E010 11nn)), None),
	("E010 11np", |b| matches!(b, vif!(E010 11np)), None),
	("E010 11pn", |b| matches!(b, vif!(E010 11pn)), None),
	("E010 11pp", |b| matches!(b, vif!(E010 11pp)), None),
	("E011 00nn", |b| matches!(b, vif!(E011 00nn)), None),
	("E011 00np", |b| matches!(b, vif!(E011 00np)), None),
	("E011 00pn", |b| matches!(b, vif!(E011 00pn)), None),
	("E011 00pp", |b| matches!(b, vif!(E011 00pp)), None),
	("E011 01nn", |b| matches!(b, vif!(E011 01nn)), None),
	("E011 01np", |b| matches!(b, vif!(E011 01np)), None),
	("E011 01pn", |b| matches!(b, vif!(E011 01pn)), None),
	("E011 01pp", |b| matches!(b, vif!(E011 01pp)), None),
	("E011 10nn", |b| matches!(b, vif!(E011 10nn)), None),
	("E011 10np", |b| matches!(b, vif!(E011 10np)), None),
	("E011 10pn", |b| matches!(b, vif!(E011 10pn)), None),
	("E011 10pp", |b| matches!(b, vif!(E011 10pp)), None),
	("E011 11nn", |b| matches!(b, vif!(E011 11nn)), None),
	("E011 11np", |b| matches!(b, vif!(E011 11np)), None),
	("E011 11pn", |b| matches!(b, vif!(E011 11pn)), None),
	("E011 11pp", |b| matches!(b, vif!(E011 11pp)), None),
	("E100 00nn", |b| matches!(b, vif!(E100 00nn)), None),
	("E100 00np", |b| matches!(b, vif!(E100 00np)), None),
	("E100 00pn", |b| matches!(b, vif!(E100 00pn)), None),
	("E100 00pp", |b| matches!(b, vif!(E100 00pp)), None),
	("E100 01nn", |b| matches!(b, vif!(E100 01nn)), None),
	("E100 01np", |b| matches!(b, vif!(E100 01np)), None),
	("E100 01pn", |b| matches!(b, vif!(E100 01pn)), None),
	("E100 01pp", |b| matches!(b, vif!(E100 01pp)), None),
	("E100 10nn", |b| matches!(b, vif!(E100 10nn)), None),
	("E100 10np", |b| matches!(b, vif!(E100 10np)), None),
	("E100 10pn", |b| matches!(b, vif!(E100 10pn)), None),
	("E100 10pp", |b| matches!(b, vif!(E100 10pp)), None),
	("E100 11nn", |b| matches!(b, vif!(E100 11nn)), None),
	("E100 11np", |b| matches!(b, vif!(E100 11np)), None),
	("E100 11pn", |b| matches!(b, vif!(E100 11pn)), None),
	("E100 11pp", |b| matches!(b, vif!(E100 11pp)), None),
	("E101 00nn", |b| matches!(b, vif!(E101 00nn)), None),
	("E101 00np", |b| matches!(b, vif!(E101 00np)), None),
	("E101 00pn", |b| matches!(b, vif!(E101 00pn)), None),
	("E101 00pp", |b| matches!(b, vif!(E101 00pp)), None),
	("E101 01nn", |b| matches!(b, vif!(E101 01nn)), None),
	("E101 01np", |b| matches!(b, vif!(E101 01np)), None),
	("E101 01pn", |b| matches!(b, vif!(E101 01pn)), None),
	("E101 01pp", |b| matches!(b, vif!(E101 01pp)), None),
	("E101 10nn", |b| matches!(b, vif!(E101 10nn)), None),
	("E101 10np", |b| matches!(b, vif!(E101 10np)), None),
	("E101 10pn", |b| matches!(b, vif!(E101 10pn)), None),
	("E101 10pp", |b| matches!(b, vif!(E101 10pp)), None),
	("E101 11nn", |b| matches!(b, vif!(E101 11nn)), None),
	("E101 11np", |b| matches!(b, vif!(E101 11np)), None),
	("E101 11pn", |b| matches!(b, vif!(E101 11pn)), None),
	("E101 11pp", |b| matches!(b, vif!(E101 11pp)), None),
	("E110 00nn", |b| matches!(b, vif!(E110 00nn)), None),
	("E110 00np", |b| matches!(b, vif!(E110 00np)), None),
	("E110 00pn", |b| matches!(b, vif!(E110 00pn)), None),
	("E110 00pp", |b| matches!(b, vif!(E110 00pp)), None),
	("E110 01nn", |b| matches!(b, vif!(E110 01nn)), None),
	("E110 01np", |b| matches!(b, vif!(E110 01np)), None),
	("E110 01pn", |b| matches!(b, vif!(E110 01pn)), None),
	("E110 01pp", |b| matches!(b, vif!(E110 01pp)), None),
	("E110 10nn", |b| matches!(b, vif!(E110 10nn)), None),
	("E110 10np", |b| matches!(b, vif!(E110 10np)), None),
	("E110 10pn", |b| matches!(b, vif!(E110 10pn)), None),
	("E110 10pp", |b| matches!(b, vif!(E110 10pp)), None),
	("E110 11nn", |b| matches!(b, vif!(E110 11nn)), None),
	("E110 11np", |b| matches!(b, vif!(E110 11np)), None),
	("E110 11pn", |b| matches!(b, vif!(E110 11pn)), None),
	("E110 11pp", |b| matches!(b, vif!(E110 11pp)), None),
	("E111 00nn", |b| matches!(b, vif!(E111 00nn)), None),
	("E111 00np", |b| matches!(b, vif!(E111 00np)), None),
	("E111 00pn", |b| matches!(b, vif!(E111 00pn)), None),
	("E111 00pp", |b| matches!(b, vif!(E111 00pp)), None),
	("E111 01nn", |b| matches!(b, vif!(E111 01nn)), None),
	("E111 01np", |b| matches!(b, vif!(E111 01np)), None),
	("E111 01pn", |b| matches!(b, vif!(E111 01pn)), None),
	("E111 01pp", |b| matches!(b, vif!(E111 01pp)), None),
	("E111 10nn", |b| matches!(b, vif!(E111 10nn)), None),
	("E111 10np", |b| matches!(b, vif!(E111 10np)), None),
	("E111 10pn", |b| matches!(b, vif!(E111 10pn)), None),
	("E111 10pp", |b| matches!(b, vif!(E111 10pp)), None),
	("E111 11nn", |b| matches!(b, vif!(E111 11nn)), None),
	("E111 11np", |b| matches!(b, vif!(E111 11np)), None),
	("E111 11pn", |b| matches!(b, vif!(E111 11pn)), None),
	("E111 11pp", |b| matches!(b, vif!(E111 11pp)), None),
	("E000 0nnn", |b| matches!(b, vif!(E000 0nnn)), None),
	("E000 0nnp", |b| matches!(b, vif!(E000 0nnp)), None),
	("E000 0npn", |b| matches!(b, vif!(E000 0npn)), None),
	("E000 0npp", |b| matches!(b, vif!(E000 0npp)), None),
	("E000 0pnn", |b| matches!(b, vif!(E000 0pnn)), None),
	("E000 0pnp", |b| matches!(b, vif!(E000 0pnp)), None),
	("E000 0ppn", |b| matches!(b, vif!(E000 0ppn)), None),
	("E000 0ppp", |b| matches!(b, vif!(E000 0ppp)), None),
	("E000 1nnn", |b| matches!(b, vif!(E000 1nnn)), None),
	("E000 1nnp", |b| matches!(b, vif!(E000 1nnp)), None),
	("E000 1npn", |b| matches!(b, vif!(E000 1npn)), None),
	("E000 1npp", |b| matches!(b, vif!(E000 1npp)), None),
	("E000 1pnn", |b| matches!(b, vif!(E000 1pnn)), None),
	("E000 1pnp", |b| matches!(b, vif!(E000 1pnp)), None),
	("E000 1ppn", |b| matches!(b, vif!(E000 1ppn)), None),
	("E000 1ppp", |b| matches!(b, vif!(E000 1ppp)), None),
	("E001 0nnn", |b| matches!(b, vif!(E001 0nnn)), None),
	("E001 0nnp", |b| matches!(b, vif!(E001 0nnp)), None),
	("E001 0npn", |b| matches!(b, vif!(E001 0npn)), None),
	("E001 0npp", |b| matches!(b, vif!(E001 0npp)), None),
	("E001 0pnn", |b| matches!(b, vif!(E001 0pnn)), None),
	("E001 0pnp", |b| matches!(b, vif!(E001 0pnp)), None),
	("E001 0ppn", |b| matches!(b, vif!(E001 0ppn)), None),
	("E001 0ppp", |b| matches!(b, vif!(E001 0ppp)), None),
	("E001 1nnn", |b| matches!(b, vif!(E001 1nnn)), None),
	("E001 1nnp", |b| matches!(b, vif!(E001 1nnp)), None),
	("E001 1npn", |b| matches!(b, vif!(E001 1npn)), None),
	("E001 1npp", |b| matches!(b, vif!(E001 1npp)), None),
	("E001 1pnn", |b| matches!(b, vif!(E001 1pnn)), None),
	("E001 1pnp", |b| matches!(b, vif!(E001 1pnp)), None),
	("E001 1ppn", |b| matches!(b, vif!(E001 1ppn)), None),
	("E001 1ppp", |b| matches!(b, vif!(E001 1ppp)), None),
	("E010 0nnn", |b| matches!(b, vif!(E010 0nnn)), None),
	("E010 0nnp", |b| matches!(b, vif!(E010 0nnp)), None),
	("E010 0npn", |b| matches!(b, vif!(E010 0npn)), None),
	("E010 0npp", |b| matches!(b, vif!(E010 0npp)), None),
	("E010 0pnn", |b| matches!(b, vif!(E010 0pnn)), None),
	("E010 0pnp", |b| matches!(b, vif!(E010 0pnp)), None),
	("E010 0ppn", |b| matches!(b, vif!(E010 0ppn)), None),
	("E010 0ppp", |b| matches!(b, vif!(E010 0ppp)), None),
	("E010 1nnn", |b| matches!(b, vif!(E010 1nnn)), None),
	("E010 1nnp", |b| matches!(b, vif!(E010 1nnp)), None),
	("E010 1npn", |b| matches!(b, vif!(E010 1npn)), None),
	("E010 1npp", |b| matches!(b, vif!(E010 1npp)), None),
	("E010 1pnn", |b| matches!(b, vif!(E010 1pnn)), None),
	("E010 1pnp", |b| matches!(b, vif!(E010 1pnp)), None),
	("E010 1ppn", |b| matches!(b, vif!(E010 1ppn)), None),
	("E010 1ppp", |b| matches!(b, vif!(E010 1ppp)), None),
	("E011 0nnn", |b| matches!(b, vif!(E011 0nnn)), None),
	("E011 0nnp", |b| matches!(b, vif!(E011 0nnp)), None),
	("E011 0npn", |b| matches!(b, vif!(E011 0npn)), None),
	("E011 0npp", |b| matches!(b, vif!(E011 0npp)), None),
	("E011 0pnn", |b| matches!(b, vif!(E011 0pnn)), None),
	("E011 0pnp", |b| matches!(b, vif!(E011 0pnp)), None),
	("E011 0ppn", |b| matches!(b, vif!(E011 0ppn)), None),
	("E011 0ppp", |b| matches!(b, vif!(E011 0ppp)), None),
	("E011 1nnn", |b| matches!(b, vif!(E011 1nnn)), None),
	("E011 1nnp", |b| matches!(b, vif!(E011 1nnp)), None),
	("E011 1npn", |b| matches!(b, vif!(E011 1npn)), None),
	("E011 1npp", |b| matches!(b, vif!(E011 1npp)), None),
	("E011 1pnn", |b| matches!(b, vif!(E011 1pnn)), None),
	("E011 1pnp", |b| matches!(b, vif!(E011 1pnp)), None),
	("E011 1ppn", |b| matches!(b, vif!(E011 1ppn)), None),
	("E011 1ppp", |b| matches!(b, vif!(E011 1ppp)), None),
	("E100 0nnn", |b| matches!(b, vif!(E100 0nnn)), None),
	("E100 0nnp", |b| matches!(b, vif!(E100 0nnp)), None),
	("E100 0npn", |b| matches!(b, vif!(E100 0npn)), None),
	("E100 0npp", |b| matches!(b, vif!(E100 0npp)), None),
	("E100 0pnn", |b| matches!(b, vif!(E100 0pnn)), None),
	("E100 0pnp", |b| matches!(b, vif!(E100 0pnp)), None),
	("E100 0ppn", |b| matches!(b, vif!(E100 0ppn)), None),
	("E100 0ppp", |b| matches!(b, vif!(E100 0ppp)), None),
	("E100 1nnn", |b| matches!(b, vif!(E100 1nnn)), None),
	("E100 1nnp", |b| matches!(b, vif!(E100 1nnp)), None),
	("E100 1npn", |b| matches!(b, vif!(E100 1npn)), None),
	("E100 1npp", |b| matches!(b, vif!(E100 1npp)), None),
	("E100 1pnn", |b| matches!(b, vif!(E100 1pnn)), None),
	("E100 1pnp", |b| matches!(b, vif!(E100 1pnp)), None),
	("E100 1ppn", |b| matches!(b, vif!(E100 1ppn)), None),
	("E100 1ppp", |b| matches!(b, vif!(E100 1ppp)), None),
	("E101 0nnn", |b| matches!(b, vif!(E101 0nnn)), None),
	("E101 0nnp", |b| matches!(b, vif!(E101 0nnp)), None),
	("E101 0npn", |b| matches!(b, vif!(E101 0npn)), None),
	("E101 0npp", |b| matches!(b, vif!(E101 0npp)), None),
	("E101 0pnn", |b| matches!(b, vif!(E101 0pnn)), None),
	("E101 0pnp", |b| matches!(b, vif!(E101 0pnp)), None),
	("E101 0ppn", |b| matches!(b, vif!(E101 0ppn)), None),
	("E101 0ppp", |b| matches!(b, vif!(E101 0ppp)), None),
	("E101 1nnn", |b| matches!(b, vif!(E101 1nnn)), None),
	("E101 1nnp", |b| matches!(b, vif!(E101 1nnp)), None),
	("E101 1npn", |b| matches!(b, vif!(E101 1npn)), None),
	("E101 1npp", |b| matches!(b, vif!(E101 1npp)), None),
	("E101 1pnn", |b| matches!(b, vif!(E101 1pnn)), None),
	("E101 1pnp", |b| matches!(b, vif!(E101 1pnp)), None),
	("E101 1ppn", |b| matches!(b, vif!(E101 1ppn)), None),
	("E101 1ppp", |b| matches!(b, vif!(E101 1ppp)), None),
	("E110 0nnn", |b| matches!(b, vif!(E110 0nnn)), None),
	("E110 0nnp", |b| matches!(b, vif!(E110 0nnp)), None),
	("E110 0npn", |b| matches!(b, vif!(E110 0npn)), None),
	("E110 0npp", |b| matches!(b, vif!(E110 0npp)), None),
	("E110 0pnn", |b| matches!(b, vif!(E110 0pnn)), None),
	("E110 0pnp", |b| matches!(b, vif!(E110 0pnp)), None),
	("E110 0ppn", |b| matches!(b, vif!(E110 0ppn)), None),
	("E110 0ppp", |b| matches!(b, vif!(E110 0ppp)), None),
	("E110 1nnn", |b| matches!(b, vif!(E110 1nnn)), None),
	("E110 1nnp", |b| matches!(b, vif!(E110 1nnp)), None),
	("E110 1npn", |b| matches!(b, vif!(E110 1npn)), None),
	("E110 1npp", |b| matches!(b, vif!(E110 1npp)), None),
	("E110 1pnn", |b| matches!(b, vif!(E110 1pnn)), None),
	("E110 1pnp", |b| matches!(b, vif!(E110 1pnp)), None),
	("E110 1ppn", |b| matches!(b, vif!(E110 1ppn)), None),
	("E110 1ppp", |b| matches!(b, vif!(E110 1ppp)), None),
	("E111 0nnn", |b| matches!(b, vif!(E111 0nnn)), None),
	("E111 0nnp", |b| matches!(b, vif!(E111 0nnp)), None),
	("E111 0npn", |b| matches!(b, vif!(E111 0npn)), None),
	("E111 0npp", |b| matches!(b, vif!(E111 0npp)), None),
	("E111 0pnn", |b| matches!(b, vif!(E111 0pnn)), None),
	("E111 0pnp", |b| matches!(b, vif!(E111 0pnp)), None),
	("E111 0ppn", |b| matches!(b, vif!(E111 0ppn)), None),
	("E111 0ppp", |b| matches!(b, vif!(E111 0ppp)), None),
	("E111 1nnn", |b| matches!(b, vif!(E111 1nnn)), None),
	("E111 1nnp", |b| matches!(b, vif!(E111 1nnp)), None),
	("E111 1npn", |b| matches!(b, vif!(E111 1npn)), None),
	("E111 1npp", |b| matches!(b, vif!(E111 1npp)), None),
	("E111 1pnn", |b| matches!(b, vif!(E111 1pnn)), None),
	("E111 1pnp", |b| matches!(b, vif!(E111 1pnp)), None),
	("E111 1ppn", |b| matches!(b, vif!(E111 1ppn)), None),
	("E111 1ppp", |b| matches!(b, vif!(E111 1ppp)), None),
	("E000 nnnn", |b| matches!(b, vif!(E000 nnnn)), None),
	("E000 nnnp", |b| matches!(b, vif!(E000 nnnp)), None),
	("E000 nnpn", |b| matches!(b, vif!(E000 nnpn)), None),
	("E000 nnpp", |b| matches!(b, vif!(E000 nnpp)), None),
	("E000 npnn", |b| matches!(b, vif!(E000 npnn)), None),
	("E000 npnp", |b| matches!(b, vif!(E000 npnp)), None),
	("E000 nppn", |b| matches!(b, vif!(E000 nppn)), None),
	("E000 nppp", |b| matches!(b, vif!(E000 nppp)), None),
	("E000 pnnn", |b| matches!(b, vif!(E000 pnnn)), None),
	("E000 pnnp", |b| matches!(b, vif!(E000 pnnp)), None),
	("E000 pnpn", |b| matches!(b, vif!(E000 pnpn)), None),
	("E000 pnpp", |b| matches!(b, vif!(E000 pnpp)), None),
	("E000 ppnn", |b| matches!(b, vif!(E000 ppnn)), None),
	("E000 ppnp", |b| matches!(b, vif!(E000 ppnp)), None),
	("E000 pppn", |b| matches!(b, vif!(E000 pppn)), None),
	("E000 pppp", |b| matches!(b, vif!(E000 pppp)), None),
	("E001 nnnn", |b| matches!(b, vif!(E001 nnnn)), None),
	("E001 nnnp", |b| matches!(b, vif!(E001 nnnp)), None),
	("E001 nnpn", |b| matches!(b, vif!(E001 nnpn)), None),
	("E001 nnpp", |b| matches!(b, vif!(E001 nnpp)), None),
	("E001 npnn", |b| matches!(b, vif!(E001 npnn)), None),
	("E001 npnp", |b| matches!(b, vif!(E001 npnp)), None),
	("E001 nppn", |b| matches!(b, vif!(E001 nppn)), None),
	("E001 nppp", |b| matches!(b, vif!(E001 nppp)), None),
	("E001 pnnn", |b| matches!(b, vif!(E001 pnnn)), None),
	("E001 pnnp", |b| matches!(b, vif!(E001 pnnp)), None),
	("E001 pnpn", |b| matches!(b, vif!(E001 pnpn)), None),
	("E001 pnpp", |b| matches!(b, vif!(E001 pnpp)), None),
	("E001 ppnn", |b| matches!(b, vif!(E001 ppnn)), None),
	("E001 ppnp", |b| matches!(b, vif!(E001 ppnp)), None),
	("E001 pppn", |b| matches!(b, vif!(E001 pppn)), None),
	("E001 pppp", |b| matches!(b, vif!(E001 pppp)), None),
	("E010 nnnn", |b| matches!(b, vif!(E010 nnnn)), None),
	("E010 nnnp", |b| matches!(b, vif!(E010 nnnp)), None),
	("E010 nnpn", |b| matches!(b, vif!(E010 nnpn)), None),
	("E010 nnpp", |b| matches!(b, vif!(E010 nnpp)), None),
	("E010 npnn", |b| matches!(b, vif!(E010 npnn)), None),
	("E010 npnp", |b| matches!(b, vif!(E010 npnp)), None),
	("E010 nppn", |b| matches!(b, vif!(E010 nppn)), None),
	("E010 nppp", |b| matches!(b, vif!(E010 nppp)), None),
	("E010 pnnn", |b| matches!(b, vif!(E010 pnnn)), None),
	("E010 pnnp", |b| matches!(b, vif!(E010 pnnp)), None),
	("E010 pnpn", |b| matches!(b, vif!(E010 pnpn)), None),
	("E010 pnpp", |b| matches!(b, vif!(E010 pnpp)), None),
	("E010 ppnn", |b| matches!(b, vif!(E010 ppnn)), None),
	("E010 ppnp", |b| matches!(b, vif!(E010 ppnp)), None),
	("E010 pppn", |b| matches!(b, vif!(E010 pppn)), None),
	("E010 pppp", |b| matches!(b, vif!(E010 pppp)), None),
	("E011 nnnn", |b| matches!(b, vif!(E011 nnnn)), None),
	("E011 nnnp", |b| matches!(b, vif!(E011 nnnp)), None),
	("E011 nnpn", |b| matches!(b, vif!(E011 nnpn)), None),
	("E011 nnpp", |b| matches!(b, vif!(E011 nnpp)), None),
	("E011 npnn", |b| matches!(b, vif!(E011 npnn)), None),
	("E011 npnp", |b| matches!(b, vif!(E011 npnp)), None),
	("E011 nppn", |b| matches!(b, vif!(E011 nppn)), None),
	("E011 nppp", |b| matches!(b, vif!(E011 nppp)), None),
	("E011 pnnn", |b| matches!(b, vif!(E011 pnnn)), None),
	("E011 pnnp", |b| matches!(b, vif!(E011 pnnp)), None),
	("E011 pnpn", |b| matches!(b, vif!(E011 pnpn)), None),
	("E011 pnpp", |b| matches!(b, vif!(E011 pnpp)), None),
	("E011 ppnn", |b| matches!(b, vif!(E011 ppnn)), None),
	("E011 ppnp", |b| matches!(b, vif!(E011 ppnp)), None),
	("E011 pppn", |b| matches!(b, vif!(E011 pppn)), None),
	("E011 pppp", |b| matches!(b, vif!(E011 pppp)), None),
	("E100 nnnn", |b| matches!(b, vif!(E100 nnnn)), None),
	("E100 nnnp", |b| matches!(b, vif!(E100 nnnp)), None),
	("E100 nnpn", |b| matches!(b, vif!(E100 nnpn)), None),
	("E100 nnpp", |b| matches!(b, vif!(E100 nnpp)), None),
	("E100 npnn", |b| matches!(b, vif!(E100 npnn)), None),
	("E100 npnp", |b| matches!(b, vif!(E100 npnp)), None),
	("E100 nppn", |b| matches!(b, vif!(E100 nppn)), None),
	("E100 nppp", |b| matches!(b, vif!(E100 nppp)), None),
	("E100 pnnn", |b| matches!(b, vif!(E100 pnnn)), None),
	("E100 pnnp", |b| matches!(b, vif!(E100 pnnp)), None),
	("E100 pnpn", |b| matches!(b, vif!(E100 pnpn)), None),
	("E100 pnpp", |b| matches!(b, vif!(E100 pnpp)), None),
	("E100 ppnn", |b| matches!(b, vif!(E100 ppnn)), None),
	("E100 ppnp", |b| matches!(b, vif!(E100 ppnp)), None),
	("E100 pppn", |b| matches!(b, vif!(E100 pppn)), None),
	("E100 pppp", |b| matches!(b, vif!(E100 pppp)), None),
	("E101 nnnn", |b| matches!(b, vif!(E101 nnnn)), None),
	("E101 nnnp", |b| matches!(b, vif!(E101 nnnp)), None),
	("E101 nnpn", |b| matches!(b, vif!(E101 nnpn)), None),
	("E101 nnpp", |b| matches!(b, vif!(E101 nnpp)), None),
	("E101 npnn", |b| matches!(b, vif!(E101 npnn)), None),
	("E101 npnp", |b| matches!(b, vif!(E101 npnp)), None),
	("E101 nppn", |b| matches!(b, vif!(E101 nppn)), None),
	("E101 nppp", |b| matches!(b, vif!(E101 nppp)), None),
	("E101 pnnn", |b| matches!(b, vif!(E101 pnnn)), None),
	("E101 pnnp", |b| matches!(b, vif!(E101 pnnp)), None),
	("E101 pnpn", |b| matches!(b, vif!(E101 pnpn)), None),
	("E101 pnpp", |b| matches!(b, vif!(E101 pnpp)), None),
	("E101 ppnn", |b| matches!(b, vif!(E101 ppnn)), None),
	("E101 ppnp", |b| matches!(b, vif!(E101 ppnp)), None),
	("E101 pppn", |b| matches!(b, vif!(E101 pppn)), None),
	("E101 pppp", |b| matches!(b, vif!(E101 pppp)), None),
	("E110 nnnn", |b| matches!(b, vif!(E110 nnnn)), None),
	("E110 nnnp", |b| matches!(b, vif!(E110 nnnp)), None),
	("E110 nnpn", |b| matches!(b, vif!(E110 nnpn)), None),
	("E110 nnpp", |b| matches!(b, vif!(E110 nnpp)), None),
	("E110 npnn", |b| matches!(b, vif!(E110 npnn)), None),
	("E110 npnp", |b| matches!(b, vif!(E110 npnp)), None),
	("E110 nppn", |b| matches!(b, vif!(E110 nppn)), None),
	("E110 nppp", |b| matches!(b, vif!(E110 nppp)), None),
	("E110 pnnn", |b| matches!(b, vif!(E110 pnnn)), None),
	("E110 pnnp", |b| matches!(b, vif!(E110 pnnp)), None),
	("E110 pnpn", |b| matches!(b, vif!(E110 pnpn)), None),
	("E110 pnpp", |b| matches!(b, vif!(E110 pnpp)), None),
	("E110 ppnn", |b| matches!(b, vif!(E110 ppnn)), None),
	("E110 ppnp", |b| matches!(b, vif!(E110 ppnp)), None),
	("E110 pppn", |b| matches!(b, vif!(E110 pppn)), None),
	("E110 pppp", |b| matches!(b, vif!(E110 pppp)), None),
	("E111 nnnn", |b| matches!(b, vif!(E111 nnnn)), None),
	("E111 nnnp", |b| matches!(b, vif!(E111 nnnp)), None),
	("E111 nnpn", |b| matches!(b, vif!(E111 nnpn)), None),
	("E111 nnpp", |b| matches!(b, vif!(E111 nnpp)), None),
	("E111 npnn", |b| matches!(b, vif!(E111 npnn)), None),
	("E111 npnp", |b| matches!(b, vif!(E111 npnp)), None),
	("E111 nppn", |b| matches!(b, vif!(E111 nppn)), None),
	("E111 nppp", |b| matches!(b, vif!(E111 nppp)), None),
	("E111 pnnn", |b| matches!(b, vif!(E111 pnnn)), None),
	("E111 pnnp", |b| matches!(b, vif!(E111 pnnp)), None),
	("E111 pnpn", |b| matches!(b, vif!(E111 pnpn)), None),
	("E111 pnpp", |b| matches!(b, vif!(E111 pnpp)), None),
	("E111 ppnn", |b| matches!(b, vif!(E111 ppnn)), None),
	("E111 ppnp", |b| matches!(b, vif!(E111 ppnp)), None),
	("E111 pppn", |b| matches!(b, vif!(E111 pppn)), None),
	("E111 pppp", |b| matches!(b, vif!(E111 pppp)), None),
];

fn main() {
	for (text, m, value) in P {
		let hits: String = (0..=255u8).map(|b| if m(b) { '1' } else { '0' }).collect();
		println!("{text}|{hits}|{}", value.map_or("-".to_string(), |v| v.to_string()));
	}
}
