package textsecure

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
)

// world sets the package up with a store in a scratch directory and a server that answers with h.
func world(t *testing.T, h http.HandlerFunc) string {
	t.Helper()
	dir := t.TempDir()
	config.ConfigFile = &config.Config{Tel: "+10000", UUID: "11111111-1111-4111-8111-111111111111", StorageDir: dir, StoragePassword: "pw"}
	client = &Client{
		GetStoragePassword:    func() string { return "pw" },
		MessageHandler:        func(*Message) {},
		TypingMessageHandler:  func(*Message) {},
		ReceiptMessageHandler: func(*Message) {},
		CallMessageHandler:    func(*Message) {},
		ReceiptHandler:        func(string, uint32, uint64) {},
		SyncReadHandler:       func(string, uint64) {},
		SyncSentHandler:       func(*Message, uint64) {},
		RegistrationDone:      func() {},
	}
	if err := setupStore(); err != nil {
		t.Fatal(err)
	}
	identityKey = axolotl.GenerateIdentityKeyPair()
	if err := textSecureStore.SetIdentityKeyPair(identityKey); err != nil {
		t.Fatal(err)
	}
	textSecureStore.SetLocalRegistrationID(7)
	registration.Registration = registration.RegistrationInfo{RegistrationID: 7, Password: "p", SignalingKey: make([]byte, 52)}
	if h == nil {
		h = func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(404) }
	}
	srv := httptest.NewServer(h)
	t.Cleanup(srv.Close)
	transport.SetupTransporter(srv.URL, config.ConfigFile.UUID, "p", "", "")
	transport.SetupCDNTransporter(srv.URL, config.ConfigFile.UUID, "p", "", "")
	transport.SetupDirectoryTransporter(srv.URL, config.ConfigFile.UUID, "p", "", "")
	transport.SetupStorageTransporter(srv.URL, config.ConfigFile.UUID, "p", "", "")
	transport.SetupServiceTransporter(srv.URL, config.ConfigFile.UUID, "p", "", "")
	return dir
}
