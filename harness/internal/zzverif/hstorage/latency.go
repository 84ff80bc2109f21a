package hstorage

import (
	"context"

	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hlat"
	"github.com/takenet/deckard/internal/zzverif/hmongo"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.mongodb.org/mongo-driver/v2/mongo"
)

// every call to the storage records how long it took, whether it works or fails
func VH_P36_Mongo() {
	st, srv := hmongo.Connect()
	ctx := context.Background()
	m := &message.Message{ID: "a", Queue: "q::1", QueuePrefix: "q", StringPayload: "x"}
	_, _, err := st.Insert(ctx, m)
	nd.Assert(err == nil, "setup: insert")
	nd.Timers(40)
	took, at, how := 0, nd.Choose("fail", 3), 1+nd.Choose("how", 2)
	srv.Fail = func(*mongo.VerifCommand) int {
		took++
		hlat.Spend("spent")
		if took == at {
			return how
		}
		return 0
	}
	r := hlat.Watch()
	var labels []string
	name := func(op string) { labels = []string{"op", op} }
	switch nd.Choose("op", 12) {
	case 0:
		name("insert")
		st.Insert(ctx, m)
	case 1:
		name("ack")
		st.Ack(ctx, m)
	case 2:
		name("nack")
		st.Nack(ctx, m)
	case 3:
		name("remove")
		st.Remove(ctx, "q::1", "a", "b")
	case 4:
		name("find")
		again := nd.Choose("again", 2) == 1
		labels = append(labels, "retry", []string{"false", "true"}[nd.B2I(again)])
		st.Find(ctx, &storage.FindOptions{Retry: again})
	case 5:
		name("count")
		st.Count(ctx, &storage.FindOptions{}, &storage.CountOptions{})
	case 6:
		name("list_queue")
		st.ListQueueNames(ctx)
	case 7:
		name("list_queue_prefix")
		st.ListQueuePrefixes(ctx)
	case 8:
		name("edit_configuration")
		st.EditQueueConfiguration(ctx, &configuration.QueueConfiguration{Queue: "q::1", MaxElements: 7})
	case 9:
		name("find_configuration")
		st.GetQueueConfiguration(ctx, "q::1")
	case 10:
		name("list_configuration")
		st.ListQueueConfigurations(ctx)
	case 11:
		name("flush")
		st.Flush(ctx)
	}
	nd.Assert(took > 0, "setup: the call reaches the server")
	hlat.One(r, "deckard_storage_latency", labels...)
	nd.Cover("end")
}
