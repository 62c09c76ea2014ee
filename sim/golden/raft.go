// Code generated by verifsim/adapt. DO NOT EDIT.

package golden

import (
	g "github.com/danhhz/zeropb/golden/raftzeropb"
	"math"
	"verifsim/core"
)

var _ = math.Pi

// raft_Entry is a message type on the real generated code.
type raft_Entry struct{ M g.Entry }

func (w *raft_Entry) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_Entry) Encode() []byte        { return w.M.Encode() }
func (w *raft_Entry) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_Entry) GetU(i int) uint64 {
	switch i {
	case 0:
		return w.M.Term()
	case 1:
		return w.M.Index()
	case 2:
		return uint64(w.M.Type())
	}
	panic("no such field")
}
func (w *raft_Entry) SetU(i int, v uint64) {
	switch i {
	case 0:
		w.M.SetTerm(v)
		return
	case 1:
		w.M.SetIndex(v)
		return
	case 2:
		w.M.SetType(uint32(v))
		return
	}
	panic("no such field")
}
func (w *raft_Entry) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Entry) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Entry) GetB(i int) []byte {
	switch i {
	case 3:
		return w.M.Data()
	}
	panic("no such field")
}
func (w *raft_Entry) SetB(i int, v []byte) {
	switch i {
	case 3:
		w.M.SetData(v)
		return
	}
	panic("no such field")
}
func (w *raft_Entry) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Entry) SetM(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Entry) Append(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Entry) Iter(i int) core.Iter {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Entry) Count(i int, dst core.Msg) (int, error) {
	switch i {
	}
	panic("no such field")
}

// raft_SnapshotMetadata is a message type on the real generated code.
type raft_SnapshotMetadata struct{ M g.SnapshotMetadata }

func (w *raft_SnapshotMetadata) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_SnapshotMetadata) Encode() []byte        { return w.M.Encode() }
func (w *raft_SnapshotMetadata) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_SnapshotMetadata) GetU(i int) uint64 {
	switch i {
	case 1:
		return w.M.Index()
	case 2:
		return w.M.Term()
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) SetU(i int, v uint64) {
	switch i {
	case 1:
		w.M.SetIndex(v)
		return
	case 2:
		w.M.SetTerm(v)
		return
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) GetB(i int) []byte {
	switch i {
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) SetB(i int, v []byte) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	case 0:
		return w.M.ConfState(&dst.(*raft_ConfState).M)
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) SetM(i int, src core.Msg) {
	switch i {
	case 0:
		w.M.SetConfState(src.(*raft_ConfState).M)
		return
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) Append(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) Iter(i int) core.Iter {
	switch i {
	}
	panic("no such field")
}
func (w *raft_SnapshotMetadata) Count(i int, dst core.Msg) (int, error) {
	switch i {
	}
	panic("no such field")
}

// raft_Snapshot is a message type on the real generated code.
type raft_Snapshot struct{ M g.Snapshot }

func (w *raft_Snapshot) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_Snapshot) Encode() []byte        { return w.M.Encode() }
func (w *raft_Snapshot) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_Snapshot) GetU(i int) uint64 {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Snapshot) SetU(i int, v uint64) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Snapshot) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Snapshot) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Snapshot) GetB(i int) []byte {
	switch i {
	case 0:
		return w.M.Data()
	}
	panic("no such field")
}
func (w *raft_Snapshot) SetB(i int, v []byte) {
	switch i {
	case 0:
		w.M.SetData(v)
		return
	}
	panic("no such field")
}
func (w *raft_Snapshot) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	case 1:
		return w.M.Metadata(&dst.(*raft_SnapshotMetadata).M)
	}
	panic("no such field")
}
func (w *raft_Snapshot) SetM(i int, src core.Msg) {
	switch i {
	case 1:
		w.M.SetMetadata(src.(*raft_SnapshotMetadata).M)
		return
	}
	panic("no such field")
}
func (w *raft_Snapshot) Append(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Snapshot) Iter(i int) core.Iter {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Snapshot) Count(i int, dst core.Msg) (int, error) {
	switch i {
	}
	panic("no such field")
}

// raft_Message is a message type on the real generated code.
type raft_Message struct{ M g.Message }

func (w *raft_Message) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_Message) Encode() []byte        { return w.M.Encode() }
func (w *raft_Message) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_Message) GetU(i int) uint64 {
	switch i {
	case 0:
		return uint64(w.M.Type())
	case 1:
		return w.M.To()
	case 2:
		return w.M.From()
	case 3:
		return w.M.Term()
	case 4:
		return w.M.LogTerm()
	case 5:
		return w.M.Index()
	case 7:
		return w.M.Commit()
	case 9:
		return core.Bit(w.M.Reject())
	case 10:
		return w.M.RejectHint()
	}
	panic("no such field")
}
func (w *raft_Message) SetU(i int, v uint64) {
	switch i {
	case 0:
		w.M.SetType(uint32(v))
		return
	case 1:
		w.M.SetTo(v)
		return
	case 2:
		w.M.SetFrom(v)
		return
	case 3:
		w.M.SetTerm(v)
		return
	case 4:
		w.M.SetLogTerm(v)
		return
	case 5:
		w.M.SetIndex(v)
		return
	case 7:
		w.M.SetCommit(v)
		return
	case 9:
		w.M.SetReject(v != 0)
		return
	case 10:
		w.M.SetRejectHint(v)
		return
	}
	panic("no such field")
}
func (w *raft_Message) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Message) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_Message) GetB(i int) []byte {
	switch i {
	case 11:
		return w.M.Context()
	}
	panic("no such field")
}
func (w *raft_Message) SetB(i int, v []byte) {
	switch i {
	case 11:
		w.M.SetContext(v)
		return
	}
	panic("no such field")
}
func (w *raft_Message) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	case 8:
		return w.M.Snapshot(&dst.(*raft_Snapshot).M)
	}
	panic("no such field")
}
func (w *raft_Message) SetM(i int, src core.Msg) {
	switch i {
	case 8:
		w.M.SetSnapshot(src.(*raft_Snapshot).M)
		return
	}
	panic("no such field")
}
func (w *raft_Message) Append(i int, src core.Msg) {
	switch i {
	case 6:
		w.M.AppendToEntries(src.(*raft_Entry).M)
		return
	}
	panic("no such field")
}
func (w *raft_Message) Iter(i int) core.Iter {
	switch i {
	case 6:
		return core.MkIter(w.M.Entries(), func(m core.Msg) *g.Entry { return &m.(*raft_Entry).M })
	}
	panic("no such field")
}
func (w *raft_Message) Count(i int, dst core.Msg) (int, error) {
	switch i {
	case 6:
		it := w.M.Entries()
		for n := 0; ; n++ {
			ok, err := it.Next(&dst.(*raft_Entry).M)
			if !ok || err != nil {
				return n, err
			}
		}
	}
	panic("no such field")
}

// raft_HardState is a message type on the real generated code.
type raft_HardState struct{ M g.HardState }

func (w *raft_HardState) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_HardState) Encode() []byte        { return w.M.Encode() }
func (w *raft_HardState) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_HardState) GetU(i int) uint64 {
	switch i {
	case 0:
		return w.M.Term()
	case 1:
		return w.M.Vote()
	case 2:
		return w.M.Commit()
	}
	panic("no such field")
}
func (w *raft_HardState) SetU(i int, v uint64) {
	switch i {
	case 0:
		w.M.SetTerm(v)
		return
	case 1:
		w.M.SetVote(v)
		return
	case 2:
		w.M.SetCommit(v)
		return
	}
	panic("no such field")
}
func (w *raft_HardState) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) GetB(i int) []byte {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) SetB(i int, v []byte) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) SetM(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) Append(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) Iter(i int) core.Iter {
	switch i {
	}
	panic("no such field")
}
func (w *raft_HardState) Count(i int, dst core.Msg) (int, error) {
	switch i {
	}
	panic("no such field")
}

// raft_ConfState is a message type on the real generated code.
type raft_ConfState struct{ M g.ConfState }

func (w *raft_ConfState) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_ConfState) Encode() []byte        { return w.M.Encode() }
func (w *raft_ConfState) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_ConfState) GetU(i int) uint64 {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) SetU(i int, v uint64) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) GetB(i int) []byte {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) SetB(i int, v []byte) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) SetM(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) Append(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) Iter(i int) core.Iter {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfState) Count(i int, dst core.Msg) (int, error) {
	switch i {
	}
	panic("no such field")
}

// raft_ConfChange is a message type on the real generated code.
type raft_ConfChange struct{ M g.ConfChange }

func (w *raft_ConfChange) Decode(b []byte) error { return w.M.Decode(b) }
func (w *raft_ConfChange) Encode() []byte        { return w.M.Encode() }
func (w *raft_ConfChange) Reset(b []byte)        { w.M.Reset(b) }
func (w *raft_ConfChange) GetU(i int) uint64 {
	switch i {
	case 0:
		return w.M.ID()
	case 1:
		return uint64(w.M.Type())
	case 2:
		return w.M.NodeID()
	}
	panic("no such field")
}
func (w *raft_ConfChange) SetU(i int, v uint64) {
	switch i {
	case 0:
		w.M.SetID(v)
		return
	case 1:
		w.M.SetType(uint32(v))
		return
	case 2:
		w.M.SetNodeID(v)
		return
	}
	panic("no such field")
}
func (w *raft_ConfChange) GetS(i int) string {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfChange) SetS(i int, v string) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfChange) GetB(i int) []byte {
	switch i {
	case 3:
		return w.M.Context()
	}
	panic("no such field")
}
func (w *raft_ConfChange) SetB(i int, v []byte) {
	switch i {
	case 3:
		w.M.SetContext(v)
		return
	}
	panic("no such field")
}
func (w *raft_ConfChange) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfChange) SetM(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfChange) Append(i int, src core.Msg) {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfChange) Iter(i int) core.Iter {
	switch i {
	}
	panic("no such field")
}
func (w *raft_ConfChange) Count(i int, dst core.Msg) (int, error) {
	switch i {
	}
	panic("no such field")
}

func init() {
	s_Entry := &core.Schema{Name: "raft.Entry", New: func() core.Msg { return new(raft_Entry) }}
	s_SnapshotMetadata := &core.Schema{Name: "raft.SnapshotMetadata", New: func() core.Msg { return new(raft_SnapshotMetadata) }}
	s_Snapshot := &core.Schema{Name: "raft.Snapshot", New: func() core.Msg { return new(raft_Snapshot) }}
	s_Message := &core.Schema{Name: "raft.Message", New: func() core.Msg { return new(raft_Message) }}
	s_HardState := &core.Schema{Name: "raft.HardState", New: func() core.Msg { return new(raft_HardState) }}
	s_ConfState := &core.Schema{Name: "raft.ConfState", New: func() core.Msg { return new(raft_ConfState) }}
	s_ConfChange := &core.Schema{Name: "raft.ConfChange", New: func() core.Msg { return new(raft_ConfChange) }}
	s_Entry.Fields = []*core.Field{
		{Num: 2, Kind: core.Kind(4), Name: "Term"},  // uint64
		{Num: 3, Kind: core.Kind(4), Name: "Index"}, // uint64
		{Num: 1, Kind: core.Kind(13), Name: "Type"}, // enum
		{Num: 4, Kind: core.Kind(15), Name: "Data"}, // bytes
	}
	core.Register(s_Entry)
	s_SnapshotMetadata.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(16), Name: "conf_state", Sub: s_ConfState}, // msg
		{Num: 2, Kind: core.Kind(4), Name: "index"},                         // uint64
		{Num: 3, Kind: core.Kind(4), Name: "term"},                          // uint64
	}
	core.Register(s_SnapshotMetadata)
	s_Snapshot.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(15), Name: "data"},                              // bytes
		{Num: 2, Kind: core.Kind(16), Name: "metadata", Sub: s_SnapshotMetadata}, // msg
	}
	core.Register(s_Snapshot)
	s_Message.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(13), Name: "type"},                      // enum
		{Num: 2, Kind: core.Kind(4), Name: "to"},                         // uint64
		{Num: 3, Kind: core.Kind(4), Name: "from"},                       // uint64
		{Num: 4, Kind: core.Kind(4), Name: "term"},                       // uint64
		{Num: 5, Kind: core.Kind(4), Name: "logTerm"},                    // uint64
		{Num: 6, Kind: core.Kind(4), Name: "index"},                      // uint64
		{Num: 7, Kind: core.Kind(17), Name: "entries", Sub: s_Entry},     // repmsg
		{Num: 8, Kind: core.Kind(4), Name: "commit"},                     // uint64
		{Num: 9, Kind: core.Kind(16), Name: "snapshot", Sub: s_Snapshot}, // msg
		{Num: 10, Kind: core.Kind(0), Name: "reject"},                    // bool
		{Num: 11, Kind: core.Kind(4), Name: "rejectHint"},                // uint64
		{Num: 12, Kind: core.Kind(15), Name: "context"},                  // bytes
	}
	core.Register(s_Message)
	s_HardState.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(4), Name: "term"},   // uint64
		{Num: 2, Kind: core.Kind(4), Name: "vote"},   // uint64
		{Num: 3, Kind: core.Kind(4), Name: "commit"}, // uint64
	}
	core.Register(s_HardState)
	s_ConfState.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(18), Name: "nodes"},    // rep
		{Num: 2, Kind: core.Kind(18), Name: "learners"}, // rep
	}
	core.Register(s_ConfState)
	s_ConfChange.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(4), Name: "ID"},       // uint64
		{Num: 2, Kind: core.Kind(13), Name: "Type"},    // enum
		{Num: 3, Kind: core.Kind(4), Name: "NodeID"},   // uint64
		{Num: 4, Kind: core.Kind(15), Name: "Context"}, // bytes
	}
	core.Register(s_ConfChange)
}
