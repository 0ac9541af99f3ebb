package main

// Official generated code the workload runs on, beside the project's own schemas.
import (
	_ "google.golang.org/genproto/googleapis/rpc/context/attribute_context"
	_ "google.golang.org/genproto/googleapis/rpc/errdetails"
	_ "google.golang.org/genproto/googleapis/rpc/http"
	_ "google.golang.org/genproto/googleapis/rpc/status"
	_ "google.golang.org/grpc/balancer/grpclb/grpc_lb_v1"
	_ "google.golang.org/grpc/binarylog/grpc_binarylog_v1"
	_ "google.golang.org/grpc/channelz/grpc_channelz_v1"
	_ "google.golang.org/grpc/health/grpc_health_v1"
	_ "google.golang.org/grpc/interop/grpc_testing"
	_ "google.golang.org/grpc/interop/grpc_testing/core"
	_ "google.golang.org/grpc/profiling/proto"
	_ "google.golang.org/grpc/reflection/grpc_reflection_v1"
	_ "google.golang.org/grpc/test/codec_perf"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/annotations"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/comments"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/extensions/base"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/fieldnames"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/import_public"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/imports"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/issue780_oneof_conflict"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/nameclash/test_name_clash_hybrid"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/nameclash/test_name_clash_hybrid3"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/nameclash/test_name_clash_open"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/nameclash/test_name_clash_open3"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/nopackage"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/proto2"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/proto3"
	_ "google.golang.org/protobuf/cmd/protoc-gen-go/testdata/protoeditions"
	_ "google.golang.org/protobuf/types/known/apipb"
	_ "google.golang.org/protobuf/types/known/typepb"
	_ "google.golang.org/protobuf/types/pluginpb"

	_ "vharness/pb/ed"
	_ "vharness/pb/p2"
	_ "vharness/pb/p3"
)
