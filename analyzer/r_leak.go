package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C26",
		Expl:    "A whole-program taint analysis over the SSA form of every package of the library: flow-insensitive, field-based, with a summary per function that is applied at each call with the caller's secrets. Secrets are the fields that hold keys, passwords, codes, credentials and message contents (a table of structure fields of the library and of the protocol messages), what the client's password, code and PIN callbacks return, fresh random bytes, outputs of key derivation and key agreement, plaintext of CBC decryption, decrypted group attributes and profile keys, and the raw form of any data that is parsed into a structure with such a field. (log) Every call of the logging packages, every print to standard output or standard error and every panic is an obligation: no secret may be in what it is given, structures printed as a whole with everything formatting shows of them. (error) The same for every error text that is built. (text) No String or Error method of the library may return a secret, because formatting calls it.",
		Assume:  []string{"encryption, signing, hashing and the zkgroup library do not return their secret inputs, except where they are listed as sources", "error values of the operating system quote nothing but the file name, and those of parsers other than strconv, net/url and time do not quote the data they were given", "a single byte or a length says nothing"},
		Minimum: map[string]int{"log": 200, "error": 60, "text": 6},
		Run:     runC26,
	})
}

// secretFields names what must not be printed, by structure field.
var secretFields = map[string]string{
	"ts/axolotl.ECPrivateKey.key":                                               "a private key",
	"ts/axolotl.rootKey.Key":                                                    "a root key",
	"ts/axolotl.chainKey.Key":                                                   "a chain key",
	"ts/axolotl.messageKeys.CipherKey":                                          "a message key",
	"ts/axolotl.messageKeys.MacKey":                                             "a message key",
	"ts.store.aesKey":                                                           "the storage key",
	"ts.store.macKey":                                                           "the storage key",
	"ts.AccountAttributes.Pin":                                                  "the PIN",
	"ts.AccountAttributes.SignalingKey":                                         "the signaling key",
	"ts.AccountAttributes.UnidentifiedAccessKey":                                "the access key",
	"ts.UpdateAccountAttributes.RegistrationLock":                               "the PIN",
	"ts.UpdateAccountAttributes.Pin":                                            "the PIN",
	"ts.UpdateAccountAttributes.SignalingKey":                                   "the signaling key",
	"ts.UpdateAccountAttributes.UnidentifiedAccessKey":                          "the access key",
	"ts.Message.message":                                                        "message contents",
	"ts.Message.profileKey":                                                     "a profile key",
	"ts.outgoingMessage.msg":                                                    "message contents",
	"ts.attachmentPointerV3.keys":                                               "attachment keys",
	"ts.jsonDeviceCode.VerificationCode":                                        "a verification code",
	"ts/config.Config.StoragePassword":                                          "the storage password",
	"ts/config.Config.ProfileKey":                                               "a profile key",
	"ts/config.Config.ProfileKeyCredential":                                     "a credential",
	"ts/config.Config.UnidentifiedAccessKey":                                    "the access key",
	"ts/contactDiscoveryCrypto.RemoteAttestationKeys.ClientKey":                 "an attestation key",
	"ts/contactDiscoveryCrypto.RemoteAttestationKeys.ServerKey":                 "an attestation key",
	"ts/contactsDiscovery.RemoteAttestationKeys.ClientKey":                      "an attestation key",
	"ts/contactsDiscovery.RemoteAttestationKeys.ServerKey":                      "an attestation key",
	"ts/contacts.Contact.ProfileKey":                                            "a profile key",
	"ts/contacts.Contact.ProfileKeyCredential":                                  "a credential",
	"ts/crayfish.CrayfishWebSocketRequest_AVATAR_MESSAGE.Key":                   "a profile key",
	"ts/crayfish.CrayfishWebSocketRequest_REGISTER_MESSAGE.Password":            "the password",
	"ts/crayfish.CrayfishWebSocketRequest_VERIFY_REGISTER_MESSAGE.Password":     "the password",
	"ts/crayfish.CrayfishWebSocketRequest_VERIFY_REGISTER_MESSAGE.SignalingKey": "the signaling key",
	"ts/crayfish.CrayfishWebSocketRequest_VERIFY_REGISTER_MESSAGE.Code":         "a verification code",
	"ts/crayfish.CrayfishWebSocketResponseMessage.Message":                      "a decrypted message",
	"ts/crayfish.CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE.Message":     "a decrypted message",
	"ts/groupsv2.GroupCredential.Credential":                                    "a credential",
	"ts/groupsv2.GroupExternalCredential.Token":                                 "a credential",
	"ts/groupsv2.GroupV2.Hexid":                                                 "a group master key",
	"ts/groupsv2.GroupV2.MasterKey":                                             "a group master key",
	"ts/groupsv2.GroupV2MessageContext.MasterKey":                               "a group master key",
	"ts/groupsv2.GroupsV2Authorization.Password":                                "a credential",
	"ts/groupsv2.ModifyGroupParams.InviteLinkPassword":                          "an invite link password",
	"ts/profiles.Profile.Credential":                                            "a credential",
	"ts/registration.RegistrationInfo.Password":                                 "the password",
	"ts/registration.RegistrationInfo.SignalingKey":                             "the signaling key",
	"ts/sealedSessions.SealedSessionCipher.Key":                                 "a session key",
	"ts/transport.AuthCredentials.Password":                                     "a credential",
	"ts/transport.httpTransporter.pass":                                         "the password",
	"ts/unidentifiedAccess.UnidentifiedAccess.UnidentifiedAccessKey":            "the access key",
}

// protoSecrets are the protocol messages' secret fields, by message and field.
var protoSecrets = map[string]string{
	"IdentityKeyPairStructure.PrivateKey": "a private key", "PreKeyRecordStructure.PrivateKey": "a private key",
	"SignedPreKeyRecordStructure.PrivateKey": "a private key", "SessionStructure.RootKey": "a root key",
	"SessionStructure_Chain.SenderRatchetKeyPrivate": "a private key", "SessionStructure_Chain_ChainKey.Key": "a chain key",
	"SessionStructure_Chain_MessageKey.CipherKey": "a message key", "SessionStructure_Chain_MessageKey.MacKey": "a message key",
	"SenderKeyDistributionMessage.ChainKey": "a chain key", "SenderKeyStateStructure_SenderChainKey.Seed": "a chain key",
	"SenderKeyStateStructure_SenderMessageKey.Seed": "a message key", "SenderKeyStateStructure_SenderSigningKey.Private": "a private key",
	"AccountRecord.ProfileKey": "a profile key", "AccountRecord_PinnedConversation_GroupMasterKey.GroupMasterKey": "a group master key",
	"AttachmentPointer.Key": "attachment keys", "ContactDetails.ProfileKey": "a profile key", "ContactRecord.ProfileKey": "a profile key",
	"DataMessage.Body": "message contents", "DataMessage.ProfileKey": "a profile key", "DataMessage_Quote.Text": "message contents",
	"DataMessage_Reaction.Emoji": "message contents", "DataMessage_Sticker.PackKey": "a sticker pack key",
	"Preview.Title": "message contents", "Preview.Description": "message contents", "TextAttachment.Text": "message contents",
	"StoryMessage.ProfileKey": "a profile key",
	"DecryptedGroup.Title":    "decrypted group contents", "DecryptedGroup.Description": "decrypted group contents",
	"DecryptedGroup.InviteLinkPassword": "an invite link password", "DecryptedGroupChange.NewInviteLinkPassword": "an invite link password",
	"DecryptedGroupJoinInfo.Title": "decrypted group contents", "DecryptedGroupJoinInfo.Description": "decrypted group contents",
	"DecryptedMember.ProfileKey": "a profile key", "DecryptedRequestingMember.ProfileKey": "a profile key",
	"GroupAttributeBlob_Title.Title": "decrypted group contents", "GroupAttributeBlob_Description.Description": "decrypted group contents",
	"GroupContextV2.MasterKey": "a group master key", "GroupV2Record.MasterKey": "a group master key",
	"GroupInviteLink_GroupInviteLinkContentsV1.GroupMasterKey":     "a group master key",
	"GroupInviteLink_GroupInviteLinkContentsV1.InviteLinkPassword": "an invite link password",
	"ProvisionMessage.AciIdentityKeyPrivate":                       "a private key", "ProvisionMessage.PniIdentityKeyPrivate": "a private key",
	"ProvisionMessage.ProfileKey": "a profile key", "ProvisionMessage.ProvisioningCode": "a provisioning code",
	"SyncMessage_Keys.StorageService": "a storage service key", "SyncMessage_PniIdentity.PrivateKey": "a private key",
	"SyncMessage_PniChangeNumber.IdentityKeyPair": "a private key", "SyncMessage_PniChangeNumber.SignedPreKey": "a private key",
	"SyncMessage_StickerPackOperation.PackKey": "a sticker pack key",
}

// secretCallbacks are the client's functions that return secrets.
var secretCallbacks = map[string]string{
	"ts.Client.GetPin": "the PIN", "ts.Client.GetStoragePassword": "the storage password",
	"ts.Client.GetVerificationCode": "a verification code",
}

func leakField(p *Prog) func(*types.Named, *types.Var) string {
	return func(n *types.Named, f *types.Var) string {
		if p.isPB(n.Obj()) {
			return protoSecrets[n.Obj().Name()+"."+f.Name()]
		}
		return secretFields[shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()+"."+f.Name()]
	}
}

// isStdStream: os.Stdout or os.Stderr.
func isStdStream(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Global:
			return x.Pkg != nil && x.Pkg.Pkg.Path() == "os" && (x.Name() == "Stdout" || x.Name() == "Stderr")
		}
		return false
	}
}

// printArgs are the values an instruction prints, and whether it builds an error text.
func printArgs(in ssa.Instruction) ([]ssa.Value, bool) {
	if p, ok := in.(*ssa.Panic); ok {
		return []ssa.Value{p.X}, false
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	cc := ci.Common()
	n := calleeName(cc)
	args := callArgs(cc)
	switch {
	case n == "builtin.print" || n == "builtin.println":
		return args, false
	case n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "github.com/pkg/errors."):
		return args, true
	case strings.HasPrefix(n, "github.com/sirupsen/logrus."), strings.HasPrefix(n, "log.") && !strings.Contains(n, ".New"), strings.HasPrefix(n, "log/slog."), strings.HasPrefix(n, "log/syslog."):
		return args, false
	case n == "fmt.Print" || n == "fmt.Printf" || n == "fmt.Println":
		return args, false
	case strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || n == "io.Copy":
		if isStdStream(args[0]) {
			return args[1:], false
		}
	case strings.HasPrefix(n, "os.File.Write"):
		if isStdStream(args[0]) {
			return args[1:], false
		}
	case n == "runtime/debug.PrintStack":
	}
	return nil, false
}

func leakExternal(p *Prog) func(t *taint, fn *ssa.Function, ci ssa.CallInstruction, name string, args []aset) (aset, bool) {
	return func(t *taint, fn *ssa.Function, ci ssa.CallInstruction, name string, as []aset) (aset, bool) {
		cc := ci.Common()
		args := callArgs(cc)
		at := func(i int) aset {
			if i < len(as) {
				return as[i]
			}
			return nil
		}
		if name == "" {
			// A callback of the client.
			v := cc.Value
			if u, ok := v.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if k, _, _ := t.fieldKey(fa.X.Type(), fa.Field); k != "" && secretCallbacks[k] != "" {
						return t.src(secretCallbacks[k]), true
					}
				}
			}
			return nil, true
		}
		is := func(l ...string) bool {
			for _, s := range l {
				if name == s {
					return true
				}
			}
			return false
		}
		has := func(l ...string) bool {
			for _, s := range l {
				if strings.HasPrefix(name, s) {
					return true
				}
			}
			return false
		}
		base := name[strings.LastIndex(name, "/")+1:]
		method := name[strings.LastIndex(name, ".")+1:]
		random := func(v ssa.Value) bool {
			for {
				switch x := v.(type) {
				case *ssa.MakeInterface:
					v = x.X
					continue
				case *ssa.UnOp:
					v = x.X
					continue
				case *ssa.Global:
					return x.Pkg != nil && x.Pkg.Pkg.Path() == "crypto/rand"
				}
				return false
			}
		}
		switch {
		case is("crypto/rand.Read"):
			t.into(args[0], t.src(randomPrefix+p.pos(ci.Pos())), nil)
			return nil, true
		case is("io.ReadFull", "io.ReadAtLeast"):
			if random(args[0]) {
				t.into(args[1], t.src(randomPrefix+p.pos(ci.Pos())), nil)
			} else {
				t.into(args[1], at(0), nil)
			}
			return nil, true
		case strings.HasPrefix(name, "golang.org/x/crypto/hkdf."), strings.HasPrefix(name, "golang.org/x/crypto/pbkdf2."), has("crypto/hkdf.", "crypto/pbkdf2.", "golang.org/x/crypto/scrypt."):
			return t.src("a derived key"), true
		case is("golang.org/x/crypto/curve25519.ScalarMult"):
			t.into(args[0], t.src("a shared secret"), nil)
			return nil, true
		case is("golang.org/x/crypto/curve25519.X25519"):
			if u, ok := args[1].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "Basepoint" {
					return nil, true
				}
			}
			return t.src("a shared secret"), true
		case is("crypto/cipher.NewCBCDecrypter"):
			// Layers around a message are not its contents, and neither are stored files.
			if pk := outer(fn).Pkg; pk == nil || !strings.HasSuffix(pk.Pkg.Path(), "/axolotl") {
				return t.src("decrypted data"), true
			}
			return t.src("decrypted contents"), true
		case is("crypto/cipher.BlockMode.CryptBlocks"):
			t.into(args[1], at(0), nil)
			return nil, true
		case strings.Contains(name, "zkgroup"):
			switch {
			case method == "DecryptBlob":
				return t.src("decrypted group contents"), true
			case method == "DecryptProfileKey":
				return t.src("a profile key"), true
			case strings.Contains(method, "SecretParams"):
				return joined(as...), true
			}
			return nil, true
		case is("net/url.Values.Set", "net/url.Values.Add", "net/http.Header.Set", "net/http.Header.Add"):
			if len(args) > 2 && secretHeader(args[1]) {
				for x := range at(2) {
					if x >= parBase {
						t.becomes(x, t.src("a credential"))
					}
				}
			}
			t.into(args[0], joined(as[1:]...), nil)
			return nil, true
		case is("net/http.Request.SetBasicAuth"):
			for x := range at(2) {
				if x >= parBase {
					t.becomes(x, t.src("a credential"))
				}
			}
			return nil, true
		case has("crypto/", "golang.org/x/crypto/", "hash", "net/http", "github.com/gorilla/websocket", "net.", "os/exec"):
			return nil, true
		case strings.Contains(name, "curve25519sign") || strings.Contains(name, "siv"):
			return nil, true
		case has("google.golang.org/protobuf/proto.", "github.com/golang/protobuf/proto.", "encoding/json.", "gopkg.in/yaml"):
			deep := func(v ssa.Value) aset {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					return joined(t.of(v), t.printed(mi.X.Type(), mi.X, 0, true))
				}
				return t.of(v)
			}
			switch {
			case strings.HasPrefix(method, "Marshal"):
				var out aset
				for _, a := range args {
					out = joined(out, deep(a))
				}
				return out, true
			case method == "Encode":
				t.into(args[0], deep(args[len(args)-1]), nil)
				return nil, true
			case strings.HasPrefix(method, "Unmarshal"):
				// The raw form of a structure that holds secrets.
				if mi, ok := args[1].(*ssa.MakeInterface); ok {
					held := t.held(mi.X.Type())
					t.into(args[0], held, nil)
					for x := range at(0) {
						if x >= parBase && len(held) > 0 {
							t.becomes(x, held)
						}
					}
				}
				return nil, true
			case method == "Decode", method == "Size", method == "Equal", method == "Reset":
				return nil, true
			case strings.HasPrefix(base, "proto.") && len(args) == 1:
				return joined(as...), true
			}
			return joined(as...), true
		case has("google.golang.org/protobuf/runtime/protoimpl", "google.golang.org/protobuf/internal/impl"):
			if method == "MessageStringOf" {
				return joined(as...), true
			}
			return nil, true
		case has("os.File."):
			return nil, true
		case has("os.", "io/ioutil."):
			if len(args) > 0 && isStringT(args[0].Type()) {
				return at(0), true
			}
			return nil, true
		case has("path/filepath.Walk", "mime/", "time."):
			return nil, true
		case is("io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString"):
			t.into(args[0], at(1), nil)
			return nil, true
		case has("fmt.Sscan", "fmt.Fscan"):
			for _, a := range args[1:] {
				t.into(a, at(0), nil)
			}
			return nil, true
		case is("encoding/binary.Write"):
			t.into(args[0], at(2), nil)
			return nil, true
		case is("encoding/binary.Read"):
			t.into(args[2], at(0), nil)
			return nil, true
		case has("encoding/hex.", "encoding/base64.", "encoding/base32.") && (method == "Encode" || method == "Decode"):
			n := len(args)
			t.into(args[n-2], at(n-1), nil)
			return nil, true
		case strings.HasPrefix(method, "Write") || strings.HasPrefix(method, "Fprint") || method == "ReadFrom":
			if len(args) > 1 {
				t.into(args[0], joined(as[1:]...), nil)
			}
			return nil, true
		case method == "Read" && cc.IsInvoke(), name == "bytes.Buffer.Read", name == "bytes.Reader.Read", name == "strings.Reader.Read", name == "bufio.Reader.Read":
			t.into(args[1], at(0), nil)
			return nil, true
		case method == "Sum" || method == "ReadMessage" || method == "Len":
			return nil, true
		}
		return nil, false
	}
}

// secretHeader: the names of HTTP headers that carry credentials.
func secretHeader(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return false
	}
	switch strings.ToLower(constant.StringVal(k.Value)) {
	case "authorization", "unidentified-access-key", "proxy-authorization", "cookie":
		return true
	}
	return false
}

const randomPrefix = "random bytes made at "

func (p *Prog) hasMethod(tp types.Type, name string) bool {
	ms := types.NewMethodSet(tp)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// held: the labelled fields inside a type.
func (t *taint) held(tp types.Type) aset {
	var out aset
	seen := map[types.Type]bool{}
	var walk func(tp types.Type)
	walk = func(tp types.Type) {
		tp = types.Unalias(tp)
		if seen[tp] {
			return
		}
		seen[tp] = true
		switch u := tp.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Elem())
		case *types.Struct:
			n := namedStruct(tp)
			if n == nil || !t.p.inMod(n.Obj().Pkg()) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if s := t.label(n, f); s != "" {
					out = joined(out, t.src(s))
				}
				walk(f.Type())
			}
		}
	}
	walk(tp)
	return out
}

func runC26(c *Check) {
	p := c.p
	t := &taint{p: p, label: leakField(p), external: leakExternal(p)}
	t.extLabel = func(n *types.Named, f *types.Var) (string, bool) {
		if n.Obj().Pkg() == nil {
			return "", false
		}
		switch n.Obj().Pkg().Path() {
		case "net/url":
			if f.Name() == "Fragment" || f.Name() == "RawFragment" {
				return "", false
			}
			return "", true
		case "net/http":
			return "", true
		case "io/fs":
			if f.Name() == "Err" || f.Name() == "Op" {
				return "", true
			}
		}
		return "", false
	}
	t.sink = func(in ssa.Instruction) []ssa.Value {
		l, _ := printArgs(in)
		return l
	}
	isStore := func(f *ssa.Function) bool {
		r := outer(f).Signature.Recv()
		return r != nil && p.hasMethod(r.Type(), "LoadSession")
	}
	t.cross = func(name string, ci ssa.CallInstruction) string {
		if strings.HasPrefix(name, randomPrefix) {
			// Every place that asks for random bytes has its own.
			return randomPrefix + p.pos(ci.Pos())
		}
		if name == "decrypted data" && isStore(ci.Parent()) {
			return ""
		}
		return name
	}
	t.run()
	// Random bytes are secret where they become one of the secrets.
	secretRandom := map[string]string{}
	for key, what := range t.named {
		for x := range t.cell[key] {
			if n := t.names[x]; secretRandom[n] == "" || what < secretRandom[n] {
				secretRandom[n] = what
			}
		}
	}
	secret := func(n string) string {
		if strings.HasPrefix(n, randomPrefix) {
			return secretRandom[n]
		}
		return n
	}
	for _, f := range t.funcs {
		if p.isGen(f.Pos()) {
			continue
		}
		c.funcs[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s := t.sinks[in]
				if s == nil {
					continue
				}
				_, isErr := printArgs(in)
				rule := "log"
				if isErr {
					rule = "error"
				}
				var names []string
				at := map[string]token.Pos{}
				for n, q := range t.hits[s] {
					if l := secret(n); l != "" {
						if o, ok := at[l]; !ok || q < o {
							at[l] = q
						}
					}
				}
				for n := range at {
					names = append(names, n)
				}
				sort.Strings(names)
				if len(names) == 0 {
					c.ob(rule, fnName(f), in.Pos(), true, "")
					continue
				}
				for _, n := range names {
					via := ""
					if q := at[n]; q.IsValid() && q != in.Pos() {
						via = ", handed over at " + p.pos(q)
					}
					c.ob(rule, fnName(f)+":"+n, in.Pos(), false, fmt.Sprintf("%s can be in what is printed here%s", n, via))
				}
			}
		}
	}
	for _, n := range p.named {
		for _, tp := range []types.Type{n, types.NewPointer(n)} {
			f := t.stringer(tp)
			if f == nil || p.isGen(f.Pos()) {
				continue
			}
			found := map[string]bool{}
			for _, r := range t.rets[f] {
				for x := range r {
					if x < parBase {
						if l := secret(t.names[x]); l != "" {
							found[l] = true
						}
					}
				}
			}
			names := []string{}
			for l := range found {
				names = append(names, l)
			}
			sort.Strings(names)
			c.ob("text", fnName(f)+":"+strings.Join(names, ","), f.Pos(), len(names) == 0, "the text of this type contains "+strings.Join(names, ", "))
		}
	}
	if d := os.Getenv("VSA_TAINT"); d != "" {
		for v, a := range t.val {
			in, ok := v.(ssa.Instruction)
			if !ok || !strings.Contains(fnName(in.Parent()), d) {
				continue
			}
			var l []string
			for x := range a {
				if x < parBase {
					l = append(l, t.names[x])
				}
			}
			if len(l) > 0 {
				sort.Strings(l)
				fmt.Fprintln(os.Stderr, p.pos(in.Pos()), v.Name(), "=", v, l)
			}
		}
		for k, a := range t.cell {
			var l []string
			for x := range a {
				l = append(l, t.names[x])
			}
			fmt.Fprintln(os.Stderr, "CELL", k, l)
		}
	}
}
