package axolotl

import (
	"errors"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/curve25519sign"
	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
)

var _ = protobuf.SessionStructure{}
var _ = fmt.Sprintf

// party is an in-memory client: it implements all four stores.
type party struct {
	ident      *IdentityKeyPair
	reg        uint32
	pre        map[uint32]*PreKeyRecord
	spk        map[uint32]*SignedPreKeyRecord
	sess       map[string][]byte
	ids        map[string][]byte
	failStore  bool
	failSave   bool
	held       bool
	lockErrs   []string
	order      []string
	trustHook  func(string, *IdentityKey) bool
	removed    []uint32
}

func newParty(reg uint32) *party {
	p := &party{ident: GenerateIdentityKeyPair(), reg: reg, pre: map[uint32]*PreKeyRecord{}, spk: map[uint32]*SignedPreKeyRecord{}, sess: map[string][]byte{}, ids: map[string][]byte{}}
	for i := uint32(1); i < 6; i++ {
		p.pre[i] = NewPreKeyRecord(i, NewECKeyPair())
	}
	p.pre[0xFFFFFF] = NewPreKeyRecord(0xFFFFFF, NewECKeyPair())
	p.spk[1] = GenerateSignedPreKey(p.ident, 1)
	return p
}

// GenerateSignedPreKey is a test helper.
func GenerateSignedPreKey(id *IdentityKeyPair, n uint32) *SignedPreKeyRecord {
	kp := NewECKeyPair()
	var random [64]byte
	randBytes(random[:])
	sig := curve25519sign.Sign(id.PrivateKey.Key(), kp.PublicKey.Serialize(), random)
	return NewSignedPreKeyRecord(n, 1, kp, sig[:])
}

func (p *party) GetIdentityKeyPair() (*IdentityKeyPair, error)  { return p.ident, nil }
func (p *party) GetLocalRegistrationID() (uint32, error)        { return p.reg, nil }
func (p *party) SaveIdentity(id string, k *IdentityKey) error {
	p.order = append(p.order, "saveid")
	if p.failSave {
		return errors.New("save failed")
	}
	p.ids[id] = k.Serialize()
	return nil
}
func (p *party) IsTrustedIdentity(id string, k *IdentityKey) bool {
	if p.trustHook != nil {
		return p.trustHook(id, k)
	}
	b, ok := p.ids[id]
	return !ok || string(b) == string(k.Serialize())
}
func (p *party) LoadPreKey(i uint32) (*PreKeyRecord, error) {
	if r, ok := p.pre[i]; ok {
		return r, nil
	}
	return nil, errors.New("no prekey")
}
func (p *party) StorePreKey(i uint32, r *PreKeyRecord) error { p.pre[i] = r; return nil }
func (p *party) ContainsPreKey(i uint32) bool                { _, ok := p.pre[i]; return ok }
func (p *party) RemovePreKey(i uint32) {
	p.order = append(p.order, "remove")
	p.removed = append(p.removed, i)
	delete(p.pre, i)
}
func (p *party) LoadSignedPreKey(i uint32) (*SignedPreKeyRecord, error) {
	if r, ok := p.spk[i]; ok {
		return r, nil
	}
	return nil, errors.New("no signed prekey")
}
func (p *party) LoadSignedPreKeys() []SignedPreKeyRecord                   { return nil }
func (p *party) StoreSignedPreKey(i uint32, r *SignedPreKeyRecord) error   { p.spk[i] = r; return nil }
func (p *party) ContainsSignedPreKey(i uint32) bool                        { _, ok := p.spk[i]; return ok }
func (p *party) RemoveSignedPreKey(i uint32)                               {}
func (p *party) Lock() {
	if p.held {
		p.lockErrs = append(p.lockErrs, "locked twice")
	}
	p.held = true
	p.order = append(p.order, "lock")
}
func (p *party) Unlock() {
	if !p.held {
		p.lockErrs = append(p.lockErrs, "unlocked while free")
	}
	p.held = false
	p.order = append(p.order, "unlock")
}
func skey(id string, d uint32) string { return fmt.Sprintf("%s.%d", id, d) }
func (p *party) LoadSession(id string, d uint32) (*SessionRecord, error) {
	p.order = append(p.order, "load")
	if !p.held {
		p.lockErrs = append(p.lockErrs, "load without lock")
	}
	b, ok := p.sess[skey(id, d)]
	if !ok {
		return NewSessionRecord(), nil
	}
	return LoadSessionRecord(b)
}
func (p *party) GetSubDeviceSessions(string) []uint32 { return nil }
func (p *party) StoreSession(id string, d uint32, r *SessionRecord) error {
	p.order = append(p.order, "store")
	if !p.held {
		p.lockErrs = append(p.lockErrs, "store without lock")
	}
	if p.failStore {
		return errors.New("store failed")
	}
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	p.sess[skey(id, d)] = b
	return nil
}
func (p *party) ContainsSession(id string, d uint32) bool { _, ok := p.sess[skey(id, d)]; return ok }
func (p *party) DeleteSession(id string, d uint32)        { delete(p.sess, skey(id, d)) }
func (p *party) DeleteAllSessions(id string)              {}

func (p *party) cipher(peer string) *SessionCipher { return NewSessionCipher(p, p, p, p, peer, 1) }

func (p *party) bundle(t *testing.T, pre uint32) *PreKeyBundle {
	s := p.spk[1]
	var pk *ECPublicKey
	if pre != 0 {
		pk = &p.pre[pre].getKeyPair().PublicKey
	}
	b, err := NewPreKeyBundle(p.reg, 1, pre, pk, 1, &s.getKeyPair().PublicKey, s.Spkrs.Signature, &p.ident.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// connect builds a session from a to b (named by nb) with one-time prekey pre.
func (a *party) connect(t *testing.T, b *party, nb string, pre uint32) {
	if err := NewSessionBuilder(a, a, a, a, nb, 1).BuildSenderSession(b.bundle(t, pre)); err != nil {
		t.Fatal(err)
	}
}

func (p *party) send(t *testing.T, peer, text string) []byte {
	b, _, err := p.cipher(peer).SessionEncryptMessage(pad16(text))
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func pad16(s string) []byte { return []byte(s) }

// recvPre receives a pre-key message.
func (p *party) recvPre(peer string, b []byte) (string, error) {
	m, err := LoadPreKeyWhisperMessage(b)
	if err != nil {
		return "", err
	}
	pt, err := p.cipher(peer).SessionDecryptPreKeyWhisperMessage(m)
	return string(pt), err
}

func (p *party) recv(peer string, b []byte) (string, error) {
	m, err := LoadWhisperMessage(b)
	if err != nil {
		return "", err
	}
	pt, err := p.cipher(peer).SessionDecryptWhisperMessage(m)
	return string(pt), err
}

// talk establishes a full session between alice and bob.
func talk(t *testing.T) (alice, bob *party) {
	alice, bob = newParty(11), newParty(22)
	alice.connect(t, bob, "bob", 2)
	if s, err := bob.recvPre("alice", alice.send(t, "bob", "hello")); err != nil || s != "hello" {
		t.Fatal("setup", s, err)
	}
	if s, err := alice.recv("bob", bob.send(t, "alice", "hi")); err != nil || s != "hi" {
		t.Fatal("setup2", s, err)
	}
	return
}
