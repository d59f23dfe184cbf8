package verifnet

import "github.com/libp2p/go-libp2p-core/peer"

// Keys and PeerIDs belong together.
var Keys = []string{
	"thorpub1addwnpepq2ryyje5zr09lq7gqptjwnxqsy2vcdngvwd6z7yt5yjcnyj8c8cn559xe69",
	"thorpub1addwnpepqfjcw5l4ay5t00c32mmlky7qrppepxzdlkcwfs2fd5u73qrwna0vzag3y4j",
	"thorpub1addwnpepqtdklw8tf3anjz7nn5fly3uvq2e67w2apn560s4smmrt9e3x52nt2svmmu3",
	"thorpub1addwnpepqtspqyy6gk22u37ztra4hq3hdakc0w0k60sfy849mlml2vrpfr0wvm6uz09",
}

// More keys of nodes that are in no other fixture, with their peer ids.
var MoreKeys = []string{
	"thorpub1addwnpepqvdcf32k0vfxgsyet5ldt246q4jaw8scx3sysx0lnstlt6w4m5rc74nz8t2",
	"thorpub1addwnpepqfx5kmx3xcgr9j5m62htnkgq4fx5tk02mq9vjs3nwnz9rfe9f5rkvzsm3h9",
	"thorpub1addwnpepq0cqdgvd2efufm048y0lywnp7qlls0fr06yqaes3slaf7du6q28q5m22ww5",
}

var MorePeerIDs = []string{
	"16Uiu2HAmEWQnHq2jLKJypwVnVoQeFCULuyop6atvq2eWjYSUjzNi",
	"16Uiu2HAkzdQ5Y9SYT91K1ue5SxXwgmajXntfScGnLYeip5hHyWmT",
	"16Uiu2HAmUox4axmRhXtkZLsT5EbUvVgMC8HEU8u7L51DRXFRaVrR",
}

var PeerIDs = []string{
	"16Uiu2HAm4TmEzUqy3q3Dv7HvdoSboHk5sFj2FH3npiN5vDbJC6gh",
	"16Uiu2HAm2FzqoUdS6Y9Esg2EaGcAG5rVe1r6BFNnmmQr2H3bqafa",
	"16Uiu2HAmACG5DtqmQsHtXg4G2sLS65ttv84e7MrL4kapkjfmhxAp",
	"16Uiu2HAmAWKWf5vnpiAhfdSQebTbbB3Bg35qtyG7Hr4ce23VFA8V",
	// not members
	"16Uiu2HAmBdJRswX94UwYj6VLhh4GeUf9X3SjBRgTqFkeEMLmfk2M",
	"16Uiu2HAkyR9dsFqkj1BqKw8ZHAUU2yur6ZLRJxPTiiVYP5uBMeMG",
}

// Peer decodes a fixture peer id.
func Peer(i int) peer.ID {
	p, err := peer.Decode(PeerIDs[i])
	if err != nil {
		panic(err)
	}
	return p
}

// AlikeKeys come in pairs that are easily mixed up: with a common beginning of 25 characters, with a common end of 7 characters, and with the same X coordinate.
var AlikeKeys = []string{
	"thorpub1addwnpepq0fcduvgk9nvta0myt28s2acjhu2uk6vs29ct6k9lhj09f86ltpjjzms7u5",
	"thorpub1addwnpepq0fcduvgkeu39aftyukh7y06cxxjfcschlycyu9gkdzdle0cxu0h6aa9zvq",
	"thorpub1addwnpepqd2m58p05x46c6swnc6akszq63xknuusmafqjv3yec3mju63e5tlxq50ppt",
	"thorpub1addwnpepqvkn626syv3gm6um6t0ave668cplgtfrhahn3dtjygphr9tnpqp7xq50ppt",
	"thorpub1addwnpepq2ryyje5zr09lq7gqptjwnxqsy2vcdngvwd6z7yt5yjcnyj8c8cn559xe69",
	"thorpub1addwnpepqwryyje5zr09lq7gqptjwnxqsy2vcdngvwd6z7yt5yjcnyj8c8cn5w6nxej",
}

var AlikePeerIDs = []string{
	"16Uiu2HAmSthigsFHPvWXVztkTBRxmTgaBX2sMhzJfyD4T6Np1Ugx",
	"16Uiu2HAmSthigsJJsGiD9uuvKEuLBhLAVk43bEdjVkL4edoe88Hz",
	"16Uiu2HAmJRdbrDpK9MJRZMznZ3DCsrW9v3RhZuYsnBbCfk8usH3G",
	"16Uiu2HAmFhao5sy33WzXdJRGkBatUnagD8KBTCJpArCzUkgHVMh4",
	"16Uiu2HAm4TmEzUqy3q3Dv7HvdoSboHk5sFj2FH3npiN5vDbJC6gh",
	"16Uiu2HAmMh5cVGbZqsmzVC5LryctzWYc7kNLzV7tJmKQn924i3vy",
}

// TwinKeys are pairs of valid keys that differ in the middle only: the first pair begins, the second one ends alike.
var TwinKeys = [][]string{
	{"thorpub1addwnpepq0jvp4zt7trnmk7jg3tqmf2xnqcgesqlnrga230y97jv8a8p82sy70wx5dr", "thorpub1addwnpepq0jvp4ztetjlu7qrveseqdhaq5d43jn48k0ry0ruu6h0atmad5f4zwklsz3"},
	{"thorpub1addwnpepqwmjlg974vadsf7cd8hcjc8ppdzvqt8k0unsdn0njakyu7rswh2tz2znwc8", "thorpub1addwnpepqwczqcxzhhxu6r9sm6h53j4mqckrt4ulvuhptu6khq7pmwqjl2cvz2znwc8"},
}

// Session is a session id as they are in use: 64 hexadecimal digits.
const Session = "7d1f4a0c93be85264e0f1bb7c2d6a9583ef07415ac8db26093c1e57f2ba86d4a"

// AlikeSession is Session with another character at the given place.
func AlikeSession(at int, c string) string { return Session[:at] + c + Session[at+1:] }

// Places are where ids are made to differ: at the beginning, in the middle or at the end.
var Places = []int{63, 0, 31}

// ManyPeerIDs are the ids of 14 different peers.
var ManyPeerIDs = append(append(append([]string(nil), PeerIDs...), MorePeerIDs...), AlikePeerIDs[0], AlikePeerIDs[1], AlikePeerIDs[2], AlikePeerIDs[3], AlikePeerIDs[5])

// ManyPeer decodes one of them.
func ManyPeer(i int) peer.ID {
	p, err := peer.Decode(ManyPeerIDs[i])
	if err != nil {
		panic(err)
	}
	return p
}

// ManyKeys are the keys of the ManyPeerIDs.
var ManyKeys = append(append(append([]string(nil), Keys...),
	"thorpub1addwnpepqtctt9l4fddeh0krvdpxmqsxa5z9xsa0ac6frqfhm9fq6c6u5lck5s8fm4n",
	"thorpub1addwnpepqga5cupfejfhtw507sh36fvwaekyjt5kwaw0cmgnpku0at2a87qqkp60t43",
	MoreKeys[0], MoreKeys[1], MoreKeys[2]), AlikeKeys[0], AlikeKeys[1], AlikeKeys[2], AlikeKeys[3], AlikeKeys[5])
