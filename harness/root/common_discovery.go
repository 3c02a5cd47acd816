package textsecure

//vf:use contactsDiscovery/enclave

import (
	"encoding/json"
	"strings"

	vfdcontacts "github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/contactsDiscovery"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// vfDirectory is the contact discovery service: it knows who is registered.
type vfDirectory struct {
	e        *contactsDiscovery.VfEnclave
	known    map[uint64]string // number to the 16 bytes of the UUID
	asked    []uint64
	queries  int
	respond  func(data []byte) []byte // what is sent instead of the data
	override func(r *vftransport.VfReq) *vftransport.VfAnswer
}

func vfNewDirectory() *vfDirectory {
	eph, sta := make([]byte, 32), make([]byte, 32)
	eph[0], sta[0] = 8, 16
	return &vfDirectory{e: contactsDiscovery.VfNewEnclave(eph, sta, []byte("id 1")), known: map[uint64]string{}}
}

func (d *vfDirectory) answer(r *vftransport.VfReq) vftransport.VfAnswer {
	if d.override != nil {
		if a := d.override(r); a != nil {
			return *a
		}
	}
	switch {
	case r.Method == "GET" && strings.HasSuffix(r.URL, "/v1/directory/auth"):
		return vftransport.VfAnswer{Status: 200, Body: []byte(`{"username":"u","password":"p"}`)}
	case r.Method == "PUT" && strings.HasPrefix(r.URL, "https://directory/v1/attestation/"):
		m := map[string]*contactsDiscovery.RemoteAttestationResponse{"one": d.e.Attest(contactsDiscovery.VfClientPublic(r.Body))}
		return vftransport.VfAnswer{Status: 200, Body: contactsDiscovery.VfAttestations(m), Header: map[string]string{"Set-Cookie": "a=b"}}
	case r.Method == "PUT" && strings.HasPrefix(r.URL, "https://directory/v1/discovery/"):
		q := &contactsDiscovery.VfQuery{}
		if json.Unmarshal(r.Body, q) != nil {
			panic("query is not JSON")
		}
		d.queries++
		query, ok := d.e.Read(q, "one")
		vfAssert(ok, "the enclave can read the query")
		vfAssert(len(query) == 32+8*q.AddressCount, "the query has the numbers it announces")
		d.asked = nil
		var data []byte
		for i := 32; i < len(query); i += 8 {
			n := uint64(0)
			for _, b := range query[i : i+8] {
				n = n<<8 | uint64(b)
			}
			d.asked = append(d.asked, n)
			if u, ok := d.known[n]; ok {
				data = append(data, u...)
			} else {
				data = append(data, make([]byte, 16)...)
			}
		}
		if d.respond != nil {
			data = d.respond(data)
		}
		iv := make([]byte, 12)
		c := contactsDiscovery.VfSeal(d.e.ServerKey, iv, data, nil)
		b, err := json.Marshal(map[string]interface{}{"requestId": d.e.RequestID, "iv": iv, "data": c[:len(data)], "mac": c[len(data):]})
		if err != nil {
			panic("response not encoded")
		}
		return vftransport.VfAnswer{Status: 200, Body: b}
	}
	return vftransport.VfAnswer{Status: 404}
}

// vfBook makes cs both the address book and the known contacts.
func vfBook(dir string, cs []vfdcontacts.Contact) {
	f := dir + "/contacts.yml"
	if vfdcontacts.WriteContacts(f, cs) != nil {
		panic("contacts not written")
	}
	client.GetLocalContacts = func() ([]vfdcontacts.Contact, error) { return vfdcontacts.ReadContacts(f) }
}
