// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package otelgrpc

import (
	"context"

	"google.golang.org/grpc/stats"
)

type handler struct{}

func (handler) TagRPC(ctx context.Context, i *stats.RPCTagInfo) context.Context { return ctx }
func (handler) HandleRPC(context.Context, stats.RPCStats)                       {}
func (handler) TagConn(ctx context.Context, i *stats.ConnTagInfo) context.Context {
	return ctx
}
func (handler) HandleConn(context.Context, stats.ConnStats) {}

func NewServerHandler(o ...interface{}) stats.Handler { return handler{} }
func NewClientHandler(o ...interface{}) stats.Handler { return handler{} }
