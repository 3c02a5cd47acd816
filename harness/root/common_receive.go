package textsecure

//vf:use server

import (
	"path/filepath"

	"github.com/golang/protobuf/proto"
	vfrconfig "github.com/signal-golang/textsecure/config"
	vfrcontacts "github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	vfrsignal "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

const vfSelf = "9d0652a3-dcc3-4d11-975f-74d61598733f"

// vfApp is the application: what it was told.
type vfApp struct {
	msgs, typing, receipts, sent []*Message
	syncRead                     []string
	server                       int
	requests                     int
}

// vfReceiver sets up a client with handlers, or without.
func vfReceiver(handlers bool, answer func(r *vftransport.VfReq) vftransport.VfAnswer) (*vfApp, *store) {
	app := &vfApp{}
	dir := vfTempDir()
	s, _ := vfClient(filepath.Join(dir, "mine"), func(r *vftransport.VfReq) vftransport.VfAnswer {
		app.requests++
		if answer == nil {
			return vftransport.VfAnswer{Status: 404}
		}
		return answer(r)
	})
	deviceLists = map[string][]uint32{}
	vfrconfig.ConfigFile = &vfrconfig.Config{UUID: vfSelf, Tel: "+4917", ProfileKey: make([]byte, 32), StorageDir: dir}
	vfrcontacts.Contacts = map[string]vfrcontacts.Contact{}
	if _, err := vfrcontacts.ReadContacts(filepath.Join(dir, "contacts.yml")); err != nil {
		panic("contacts: " + err.Error())
	}
	crayfish.Instance = nil
	client = &Client{GetLocalContacts: func() ([]vfrcontacts.Contact, error) { return nil, nil }}
	if handlers {
		client.MessageHandler = func(m *Message) { app.msgs = append(app.msgs, m) }
		client.TypingMessageHandler = func(m *Message) { app.typing = append(app.typing, m) }
		client.ReceiptMessageHandler = func(m *Message) { app.receipts = append(app.receipts, m) }
		client.ReceiptHandler = func(source string, dev uint32, ts uint64) { app.server++ }
		client.SyncReadHandler = func(sender string, ts uint64) { app.syncRead = append(app.syncRead, sender) }
		client.SyncSentHandler = func(m *Message, ts uint64) { app.sent = append(app.sent, m) }
	}
	return app, s
}

func (a *vfApp) told() int {
	return len(a.msgs) + len(a.typing) + len(a.receipts) + len(a.sent) + len(a.syncRead) + a.server
}

// vfHandle hands a decrypted message from sender to the client.
func vfHandle(sender string, ts uint64, c *vfrsignal.Content) error {
	b, err := proto.Marshal(c)
	if err != nil {
		panic("content: " + err.Error())
	}
	return handleMessage(sender, sender, ts, b)
}

func vfStr(s string) *string { return &s }
