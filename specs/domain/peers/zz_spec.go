//go:build go1.21

package peers

import (
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops N01

//gov:lemma N01
func zzPeers(junk, list []Peer) {
	zzgov.NoPanic()
	peers, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (peers != nil) == ok)
	if ok {
		zzgov.Ensures("members as given", zzgov.Same(peers.List(), list))
	}
}

//gov:lemma N01
func zzPeerParts(delimiter, junkHost string, junkPort uint, junkText string, host string, withPort bool, port uint) {
	zzgov.NoPanic()
	builder := NewPeerBuilder(delimiter).WithHost(junkHost).WithPort(junkPort).WithString(junkText).Create().WithHost(host)
	if withPort {
		builder = builder.WithPort(port)
	}
	peer, err := builder.Now()
	ok := host != "" && withPort
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (peer != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("host as given", peer.Host() == host)
	zzgov.Ensures("port as given", peer.Port() == port)
	zzgov.Ensures("text is host, separator and decimal port", peer.String() == host+delimiter+strconv.FormatUint(uint64(port), 10))
}

//gov:lemma N01
func zzPeerText(delimiter, text string) {
	zzgov.Requires(delimiter != "" && text != "")
	zzgov.NoPanic()
	peer, err := NewPeerBuilder(delimiter).WithString(text).Now()
	zzgov.Ensures("answer or error", (err == nil) == (peer != nil))
	at := strings.Index(text, delimiter)
	if at < 0 {
		zzgov.Ensures("refused without separator", err != nil)
		return
	}
	host, rest := text[:at], text[at+len(delimiter):]
	if strings.Contains(rest, delimiter) {
		zzgov.Ensures("refused with several separators", err != nil)
		return
	}
	if host == "" {
		zzgov.Ensures("refused without host", err != nil)
		return
	}
	if strings.HasPrefix(rest, "+") {
		return
	}
	port, bad := strconv.ParseUint(rest, 10, 64)
	zzgov.Ensures("obtained exactly when the port is a decimal number", (err == nil) == (bad == nil))
	if err == nil {
		zzgov.Ensures("host as written", peer.Host() == host)
		zzgov.Ensures("port as written", peer.Port() == uint(port))
	}
}

//gov:lemma N01
func zzPeerRoundTrip(delimiter, host string, port uint) {
	zzgov.Requires(delimiter != "" && host != "")
	text := host + delimiter + strconv.FormatUint(uint64(port), 10)
	zzgov.Requires(strings.Index(text, delimiter) == len(host) && !strings.Contains(text[len(host)+len(delimiter):], delimiter))
	zzgov.NoPanic()
	peer, err := NewPeerBuilder(delimiter).WithHost(host).WithPort(port).Now()
	zzgov.Ensures("obtained", err == nil)
	again, err := NewPeerBuilder(delimiter).WithString(peer.String()).Now()
	zzgov.Ensures("text is read", err == nil)
	zzgov.Ensures("text reads back as the same peer", again.Host() == host && again.Port() == port)
}
