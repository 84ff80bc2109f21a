package hmain

import (
	"os"
	"syscall"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/trace"
	"github.com/takenet/deckard/internal/zzverif/nd"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
)

// with tracing configured, the traces recorded so far are sent before the shutdown is over
func VH_P24_Traces() {
	setup()
	n := 0
	for _, k := range []string{"OTEL_EXPORTER_OTLP_ENDPOINT", "OTEL_EXPORTER_OTLP_TRACES_ENDPOINT"} {
		v := ""
		if nd.Choose(k, 2) == 1 {
			v, n = "http://localhost:1", 1
		}
		os.Setenv(k, v)
	}
	nd.Assert(trace.Init() == nil, "tracing starts")
	nd.Assert(sdktrace.Created == n, "traces are recorded if an endpoint is configured")
	shutdown.WaitGroup.Add(1)
	nd.Go(func() {
		<-ctx.Done()
		nd.Assert(sdktrace.Shut == n, "recorded traces are sent before the context is cancelled")
		shutdown.WaitGroup.Done()
	})
	shutdown.PerformShutdown(ctx, cancel, nil)
	nd.Assert(sdktrace.Shut == n, "recorded traces are sent before the shutdown is over")
}

// the whole process over the in-memory cache and storage: it starts, takes the signal and ends
func VH_P24_Main() {
	nd.Single()
	setup()
	config.Configure(true)
	config.MetricsEnabled.Set(false)
	config.GrpcEnabled.Set(false)
	config.CacheType.Set("MEMORY")
	config.StorageType.Set("MEMORY")
	config.HousekeeperEnabled.Set(nd.Choose("keeper", 2) == 1)
	for _, d := range []config.ConfigKey{config.HousekeeperTaskUnlockDelay, config.HousekeeperTaskTimeoutDelay, config.HousekeeperTaskMetricsDelay,
		config.HousekeeperTaskUpdateDelay, config.HousekeeperTaskMaxElementsDelay, config.HousekeeperTaskTTLDelay} {
		d.Set(period)
	}
	done := false
	nd.Timers(14)
	nd.Go(func() { main(); done = true })
	nd.Quiesce()
	nd.Elapse(period)
	nd.Quiesce()
	nd.Assert(!done && !shutdown.Ongoing(), "the process runs until told to end")
	shutdown.CancelChan <- syscall.SIGTERM
	nd.Quiesce()
	nd.Assert(done && shutdown.HasFinished(), "the process ends when told to")
}
