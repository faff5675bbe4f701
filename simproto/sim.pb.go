// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        v3.21.12
// source: sim.proto

package simpb

import (
	_ "github.com/livekit/psrpc/protoc-gen-psrpc/options"
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type Ignored struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Ignored) Reset() {
	*x = Ignored{}
	mi := &file_sim_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Ignored) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Ignored) ProtoMessage() {}

func (x *Ignored) ProtoReflect() protoreflect.Message {
	mi := &file_sim_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Ignored.ProtoReflect.Descriptor instead.
func (*Ignored) Descriptor() ([]byte, []int) {
	return file_sim_proto_rawDescGZIP(), []int{0}
}

type Req struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Id            uint64                 `protobuf:"varint,1,opt,name=id,proto3" json:"id,omitempty"`
	Text          string                 `protobuf:"bytes,2,opt,name=text,proto3" json:"text,omitempty"`
	Blob          []byte                 `protobuf:"bytes,3,opt,name=blob,proto3" json:"blob,omitempty"`
	Nums          []int32                `protobuf:"varint,4,rep,packed,name=nums,proto3" json:"nums,omitempty"`
	Kv            map[string]string      `protobuf:"bytes,5,rep,name=kv,proto3" json:"kv,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Req) Reset() {
	*x = Req{}
	mi := &file_sim_proto_msgTypes[1]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Req) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Req) ProtoMessage() {}

func (x *Req) ProtoReflect() protoreflect.Message {
	mi := &file_sim_proto_msgTypes[1]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Req.ProtoReflect.Descriptor instead.
func (*Req) Descriptor() ([]byte, []int) {
	return file_sim_proto_rawDescGZIP(), []int{1}
}

func (x *Req) GetId() uint64 {
	if x != nil {
		return x.Id
	}
	return 0
}

func (x *Req) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

func (x *Req) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

func (x *Req) GetNums() []int32 {
	if x != nil {
		return x.Nums
	}
	return nil
}

func (x *Req) GetKv() map[string]string {
	if x != nil {
		return x.Kv
	}
	return nil
}

type Resp struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Id            uint64                 `protobuf:"varint,1,opt,name=id,proto3" json:"id,omitempty"`
	Server        string                 `protobuf:"bytes,2,opt,name=server,proto3" json:"server,omitempty"`
	Text          string                 `protobuf:"bytes,3,opt,name=text,proto3" json:"text,omitempty"`
	Blob          []byte                 `protobuf:"bytes,4,opt,name=blob,proto3" json:"blob,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Resp) Reset() {
	*x = Resp{}
	mi := &file_sim_proto_msgTypes[2]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Resp) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Resp) ProtoMessage() {}

func (x *Resp) ProtoReflect() protoreflect.Message {
	mi := &file_sim_proto_msgTypes[2]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Resp.ProtoReflect.Descriptor instead.
func (*Resp) Descriptor() ([]byte, []int) {
	return file_sim_proto_rawDescGZIP(), []int{2}
}

func (x *Resp) GetId() uint64 {
	if x != nil {
		return x.Id
	}
	return 0
}

func (x *Resp) GetServer() string {
	if x != nil {
		return x.Server
	}
	return ""
}

func (x *Resp) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

func (x *Resp) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

type Upd struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Id            uint64                 `protobuf:"varint,1,opt,name=id,proto3" json:"id,omitempty"`
	Pub           string                 `protobuf:"bytes,2,opt,name=pub,proto3" json:"pub,omitempty"`
	Blob          []byte                 `protobuf:"bytes,3,opt,name=blob,proto3" json:"blob,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Upd) Reset() {
	*x = Upd{}
	mi := &file_sim_proto_msgTypes[3]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Upd) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Upd) ProtoMessage() {}

func (x *Upd) ProtoReflect() protoreflect.Message {
	mi := &file_sim_proto_msgTypes[3]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Upd.ProtoReflect.Descriptor instead.
func (*Upd) Descriptor() ([]byte, []int) {
	return file_sim_proto_rawDescGZIP(), []int{3}
}

func (x *Upd) GetId() uint64 {
	if x != nil {
		return x.Id
	}
	return 0
}

func (x *Upd) GetPub() string {
	if x != nil {
		return x.Pub
	}
	return ""
}

func (x *Upd) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

type CMsg struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Id            uint64                 `protobuf:"varint,1,opt,name=id,proto3" json:"id,omitempty"`
	Blob          []byte                 `protobuf:"bytes,2,opt,name=blob,proto3" json:"blob,omitempty"`
	Text          string                 `protobuf:"bytes,3,opt,name=text,proto3" json:"text,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *CMsg) Reset() {
	*x = CMsg{}
	mi := &file_sim_proto_msgTypes[4]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *CMsg) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*CMsg) ProtoMessage() {}

func (x *CMsg) ProtoReflect() protoreflect.Message {
	mi := &file_sim_proto_msgTypes[4]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use CMsg.ProtoReflect.Descriptor instead.
func (*CMsg) Descriptor() ([]byte, []int) {
	return file_sim_proto_rawDescGZIP(), []int{4}
}

func (x *CMsg) GetId() uint64 {
	if x != nil {
		return x.Id
	}
	return 0
}

func (x *CMsg) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

func (x *CMsg) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

type SMsg struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Id            uint64                 `protobuf:"varint,1,opt,name=id,proto3" json:"id,omitempty"`
	Blob          []byte                 `protobuf:"bytes,2,opt,name=blob,proto3" json:"blob,omitempty"`
	Text          string                 `protobuf:"bytes,3,opt,name=text,proto3" json:"text,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *SMsg) Reset() {
	*x = SMsg{}
	mi := &file_sim_proto_msgTypes[5]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *SMsg) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*SMsg) ProtoMessage() {}

func (x *SMsg) ProtoReflect() protoreflect.Message {
	mi := &file_sim_proto_msgTypes[5]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use SMsg.ProtoReflect.Descriptor instead.
func (*SMsg) Descriptor() ([]byte, []int) {
	return file_sim_proto_rawDescGZIP(), []int{5}
}

func (x *SMsg) GetId() uint64 {
	if x != nil {
		return x.Id
	}
	return 0
}

func (x *SMsg) GetBlob() []byte {
	if x != nil {
		return x.Blob
	}
	return nil
}

func (x *SMsg) GetText() string {
	if x != nil {
		return x.Text
	}
	return ""
}

var File_sim_proto protoreflect.FileDescriptor

const file_sim_proto_rawDesc = "" +
	"\n" +
	"\tsim.proto\x12\tverif.sim\x1a\roptions.proto\"\t\n" +
	"\aIgnored\"\xb0\x01\n" +
	"\x03Req\x12\x0e\n" +
	"\x02id\x18\x01 \x01(\x04R\x02id\x12\x12\n" +
	"\x04text\x18\x02 \x01(\tR\x04text\x12\x12\n" +
	"\x04blob\x18\x03 \x01(\fR\x04blob\x12\x12\n" +
	"\x04nums\x18\x04 \x03(\x05R\x04nums\x12&\n" +
	"\x02kv\x18\x05 \x03(\v2\x16.verif.sim.Req.KvEntryR\x02kv\x1a5\n" +
	"\aKvEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\"V\n" +
	"\x04Resp\x12\x0e\n" +
	"\x02id\x18\x01 \x01(\x04R\x02id\x12\x16\n" +
	"\x06server\x18\x02 \x01(\tR\x06server\x12\x12\n" +
	"\x04text\x18\x03 \x01(\tR\x04text\x12\x12\n" +
	"\x04blob\x18\x04 \x01(\fR\x04blob\";\n" +
	"\x03Upd\x12\x0e\n" +
	"\x02id\x18\x01 \x01(\x04R\x02id\x12\x10\n" +
	"\x03pub\x18\x02 \x01(\tR\x03pub\x12\x12\n" +
	"\x04blob\x18\x03 \x01(\fR\x04blob\">\n" +
	"\x04CMsg\x12\x0e\n" +
	"\x02id\x18\x01 \x01(\x04R\x02id\x12\x12\n" +
	"\x04blob\x18\x02 \x01(\fR\x04blob\x12\x12\n" +
	"\x04text\x18\x03 \x01(\tR\x04text\">\n" +
	"\x04SMsg\x12\x0e\n" +
	"\x02id\x18\x01 \x01(\x04R\x02id\x12\x12\n" +
	"\x04blob\x18\x02 \x01(\fR\x04blob\x12\x12\n" +
	"\x04text\x18\x03 \x01(\tR\x04text2\xa3\b\n" +
	"\x03Sim\x12(\n" +
	"\x05Plain\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\x12.\n" +
	"\x03Aff\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x06\xb2\x89\x01\x02@\x01\x12.\n" +
	"\x03All\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x06\xb2\x89\x01\x02@\x02\x121\n" +
	"\x06TPlain\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x06\xb2\x89\x01\x02\x10\x01\x12A\n" +
	"\x04TAff\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x18\xb2\x89\x01\x14\x10\x01\x1a\x0e\x12\x06region\x12\x04room@\x01\x121\n" +
	"\x04TAll\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\b\xb2\x89\x01\x04\x10\x01@\x02\x12<\n" +
	"\aTSingle\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x10\xb2\x89\x01\f\x10\x01\x1a\b\x12\x04node \x01\x12<\n" +
	"\x04GOne\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x13\xb2\x89\x01\x0f\x10\x01\x1a\v\n" +
	"\x03grp\x12\x04part\x12>\n" +
	"\x04GTwo\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x15\xb2\x89\x01\x11\x10\x01\x1a\v\n" +
	"\x03grp\x12\x04part@\x02\x12@\n" +
	"\x06GThree\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x15\xb2\x89\x01\x11\x10\x01\x1a\r\n" +
	"\x03grp\x12\x04part \x01\x12/\n" +
	"\x03Str\x12\x0f.verif.sim.CMsg\x1a\x0f.verif.sim.SMsg\"\x06\xb2\x89\x01\x02 \x01\x122\n" +
	"\x04AStr\x12\x0f.verif.sim.CMsg\x1a\x0f.verif.sim.SMsg\"\b\xb2\x89\x01\x04 \x01@\x01\x122\n" +
	"\x04TStr\x12\x0f.verif.sim.CMsg\x1a\x0f.verif.sim.SMsg\"\b\xb2\x89\x01\x04\x10\x01 \x01\x12=\n" +
	"\x05TSStr\x12\x0f.verif.sim.CMsg\x1a\x0f.verif.sim.SMsg\"\x12\xb2\x89\x01\x0e\x10\x01\x1a\b\x12\x04node \x01 \x01\x125\n" +
	"\x05TAStr\x12\x0f.verif.sim.CMsg\x1a\x0f.verif.sim.SMsg\"\n" +
	"\xb2\x89\x01\x06\x10\x01 \x01@\x01\x122\n" +
	"\x04UpdQ\x12\x12.verif.sim.Ignored\x1a\x0e.verif.sim.Upd\"\x06\xb2\x89\x01\x02\b\x01\x126\n" +
	"\x06UpdAll\x12\x12.verif.sim.Ignored\x1a\x0e.verif.sim.Upd\"\b\xb2\x89\x01\x04\b\x01@\x02\x125\n" +
	"\x05TUpdQ\x12\x12.verif.sim.Ignored\x1a\x0e.verif.sim.Upd\"\b\xb2\x89\x01\x04\b\x01\x10\x01\x129\n" +
	"\aTUpdAll\x12\x12.verif.sim.Ignored\x1a\x0e.verif.sim.Upd\"\n" +
	"\xb2\x89\x01\x06\b\x01\x10\x01@\x022\xce\x01\n" +
	"\x04Sim2\x12(\n" +
	"\x05Plain\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\x12.\n" +
	"\x03All\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x06\xb2\x89\x01\x02@\x02\x121\n" +
	"\x06TPlain\x12\x0e.verif.sim.Req\x1a\x0f.verif.sim.Resp\"\x06\xb2\x89\x01\x02\x10\x01\x129\n" +
	"\aTUpdAll\x12\x12.verif.sim.Ignored\x1a\x0e.verif.sim.Upd\"\n" +
	"\xb2\x89\x01\x06\b\x01\x10\x01@\x02B\bZ\x06/simpbb\x06proto3"

var (
	file_sim_proto_rawDescOnce sync.Once
	file_sim_proto_rawDescData []byte
)

func file_sim_proto_rawDescGZIP() []byte {
	file_sim_proto_rawDescOnce.Do(func() {
		file_sim_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_sim_proto_rawDesc), len(file_sim_proto_rawDesc)))
	})
	return file_sim_proto_rawDescData
}

var file_sim_proto_msgTypes = make([]protoimpl.MessageInfo, 7)
var file_sim_proto_goTypes = []any{
	(*Ignored)(nil), // 0: verif.sim.Ignored
	(*Req)(nil),     // 1: verif.sim.Req
	(*Resp)(nil),    // 2: verif.sim.Resp
	(*Upd)(nil),     // 3: verif.sim.Upd
	(*CMsg)(nil),    // 4: verif.sim.CMsg
	(*SMsg)(nil),    // 5: verif.sim.SMsg
	nil,             // 6: verif.sim.Req.KvEntry
}
var file_sim_proto_depIdxs = []int32{
	6,  // 0: verif.sim.Req.kv:type_name -> verif.sim.Req.KvEntry
	1,  // 1: verif.sim.Sim.Plain:input_type -> verif.sim.Req
	1,  // 2: verif.sim.Sim.Aff:input_type -> verif.sim.Req
	1,  // 3: verif.sim.Sim.All:input_type -> verif.sim.Req
	1,  // 4: verif.sim.Sim.TPlain:input_type -> verif.sim.Req
	1,  // 5: verif.sim.Sim.TAff:input_type -> verif.sim.Req
	1,  // 6: verif.sim.Sim.TAll:input_type -> verif.sim.Req
	1,  // 7: verif.sim.Sim.TSingle:input_type -> verif.sim.Req
	1,  // 8: verif.sim.Sim.GOne:input_type -> verif.sim.Req
	1,  // 9: verif.sim.Sim.GTwo:input_type -> verif.sim.Req
	1,  // 10: verif.sim.Sim.GThree:input_type -> verif.sim.Req
	4,  // 11: verif.sim.Sim.Str:input_type -> verif.sim.CMsg
	4,  // 12: verif.sim.Sim.AStr:input_type -> verif.sim.CMsg
	4,  // 13: verif.sim.Sim.TStr:input_type -> verif.sim.CMsg
	4,  // 14: verif.sim.Sim.TSStr:input_type -> verif.sim.CMsg
	4,  // 15: verif.sim.Sim.TAStr:input_type -> verif.sim.CMsg
	0,  // 16: verif.sim.Sim.UpdQ:input_type -> verif.sim.Ignored
	0,  // 17: verif.sim.Sim.UpdAll:input_type -> verif.sim.Ignored
	0,  // 18: verif.sim.Sim.TUpdQ:input_type -> verif.sim.Ignored
	0,  // 19: verif.sim.Sim.TUpdAll:input_type -> verif.sim.Ignored
	1,  // 20: verif.sim.Sim2.Plain:input_type -> verif.sim.Req
	1,  // 21: verif.sim.Sim2.All:input_type -> verif.sim.Req
	1,  // 22: verif.sim.Sim2.TPlain:input_type -> verif.sim.Req
	0,  // 23: verif.sim.Sim2.TUpdAll:input_type -> verif.sim.Ignored
	2,  // 24: verif.sim.Sim.Plain:output_type -> verif.sim.Resp
	2,  // 25: verif.sim.Sim.Aff:output_type -> verif.sim.Resp
	2,  // 26: verif.sim.Sim.All:output_type -> verif.sim.Resp
	2,  // 27: verif.sim.Sim.TPlain:output_type -> verif.sim.Resp
	2,  // 28: verif.sim.Sim.TAff:output_type -> verif.sim.Resp
	2,  // 29: verif.sim.Sim.TAll:output_type -> verif.sim.Resp
	2,  // 30: verif.sim.Sim.TSingle:output_type -> verif.sim.Resp
	2,  // 31: verif.sim.Sim.GOne:output_type -> verif.sim.Resp
	2,  // 32: verif.sim.Sim.GTwo:output_type -> verif.sim.Resp
	2,  // 33: verif.sim.Sim.GThree:output_type -> verif.sim.Resp
	5,  // 34: verif.sim.Sim.Str:output_type -> verif.sim.SMsg
	5,  // 35: verif.sim.Sim.AStr:output_type -> verif.sim.SMsg
	5,  // 36: verif.sim.Sim.TStr:output_type -> verif.sim.SMsg
	5,  // 37: verif.sim.Sim.TSStr:output_type -> verif.sim.SMsg
	5,  // 38: verif.sim.Sim.TAStr:output_type -> verif.sim.SMsg
	3,  // 39: verif.sim.Sim.UpdQ:output_type -> verif.sim.Upd
	3,  // 40: verif.sim.Sim.UpdAll:output_type -> verif.sim.Upd
	3,  // 41: verif.sim.Sim.TUpdQ:output_type -> verif.sim.Upd
	3,  // 42: verif.sim.Sim.TUpdAll:output_type -> verif.sim.Upd
	2,  // 43: verif.sim.Sim2.Plain:output_type -> verif.sim.Resp
	2,  // 44: verif.sim.Sim2.All:output_type -> verif.sim.Resp
	2,  // 45: verif.sim.Sim2.TPlain:output_type -> verif.sim.Resp
	3,  // 46: verif.sim.Sim2.TUpdAll:output_type -> verif.sim.Upd
	24, // [24:47] is the sub-list for method output_type
	1,  // [1:24] is the sub-list for method input_type
	1,  // [1:1] is the sub-list for extension type_name
	1,  // [1:1] is the sub-list for extension extendee
	0,  // [0:1] is the sub-list for field type_name
}

func init() { file_sim_proto_init() }
func file_sim_proto_init() {
	if File_sim_proto != nil {
		return
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_sim_proto_rawDesc), len(file_sim_proto_rawDesc)),
			NumEnums:      0,
			NumMessages:   7,
			NumExtensions: 0,
			NumServices:   2,
		},
		GoTypes:           file_sim_proto_goTypes,
		DependencyIndexes: file_sim_proto_depIdxs,
		MessageInfos:      file_sim_proto_msgTypes,
	}.Build()
	File_sim_proto = out.File
	file_sim_proto_goTypes = nil
	file_sim_proto_depIdxs = nil
}
