// Command mkgolden writes golden/golden.go and golden/test.go, the adapters for
// the generated code that is committed in the repository.
package main

import (
	"os"

	"verifsim/adapt"
	. "verifsim/core"
)

func main() {
	raft := []adapt.Type{
		{"Entry", []adapt.Field{{"Term", 2, KUint64, ""}, {"Index", 3, KUint64, ""}, {"Type", 1, KEnum, ""}, {"Data", 4, KBytes, ""}}},
		{"SnapshotMetadata", []adapt.Field{{"conf_state", 1, KMsg, "ConfState"}, {"index", 2, KUint64, ""}, {"term", 3, KUint64, ""}}},
		{"Snapshot", []adapt.Field{{"data", 1, KBytes, ""}, {"metadata", 2, KMsg, "SnapshotMetadata"}}},
		{"Message", []adapt.Field{{"type", 1, KEnum, ""}, {"to", 2, KUint64, ""}, {"from", 3, KUint64, ""}, {"term", 4, KUint64, ""},
			{"logTerm", 5, KUint64, ""}, {"index", 6, KUint64, ""}, {"entries", 7, KRepMsg, "Entry"}, {"commit", 8, KUint64, ""},
			{"snapshot", 9, KMsg, "Snapshot"}, {"reject", 10, KBool, ""}, {"rejectHint", 11, KUint64, ""}, {"context", 12, KBytes, ""}}},
		{"HardState", []adapt.Field{{"term", 1, KUint64, ""}, {"vote", 2, KUint64, ""}, {"commit", 3, KUint64, ""}}},
		{"ConfState", []adapt.Field{{"nodes", 1, KRep, ""}, {"learners", 2, KRep, ""}}},
		{"ConfChange", []adapt.Field{{"ID", 1, KUint64, ""}, {"Type", 2, KEnum, ""}, {"NodeID", 3, KUint64, ""}, {"Context", 4, KBytes, ""}}},
	}
	test := []adapt.Type{{"TestMessage", []adapt.Field{
		{"bool", 1, KBool, ""}, {"int32", 2, KInt32, ""}, {"int64", 3, KInt64, ""}, {"uint32", 4, KUint32, ""}, {"uint64", 5, KUint64, ""},
		{"sint32", 6, KSint32, ""}, {"sint64", 7, KSint64, ""}, {"fixed32", 8, KFixed32, ""}, {"fixed64", 9, KFixed64, ""},
		{"sfixed32", 10, KSfixed32, ""}, {"sfixed64", 11, KSfixed64, ""}, {"double", 12, KDouble, ""}, {"float", 13, KFloat, ""},
		{"string", 14, KString, ""}, {"byte_array", 15, KBytes, ""}, {"enum", 16, KEnum, ""}, {"message", 17, KMsg, "TestMessage"},
		{"bools", 18, KRep, ""}, {"int32s", 19, KRep, ""}, {"int64s", 20, KRep, ""}, {"doubles", 29, KRep, ""}, {"strings", 31, KRep, ""},
		{"byte_arrays", 32, KRep, ""}, {"messages", 34, KRepMsg, "TestMessage"}}}}
	w := func(f string, b []byte) {
		if err := os.WriteFile(f, b, 0644); err != nil {
			panic(err)
		}
	}
	w("golden/raft.go", adapt.Source("golden", "github.com/danhhz/zeropb/golden/raftzeropb", "raft", raft))
	w("golden/test.go", adapt.Source("golden", "github.com/danhhz/zeropb/golden/testzeropb", "test", test))
}
