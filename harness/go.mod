module verif/harness

go 1.23.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/amoghe/go-crypt v0.0.0-20220222110647-20eada5f5964
	github.com/go-asn1-ber/asn1-ber v1.5.8-0.20250403174932-29230038a667
	go.etcd.io/bbolt v1.4.0
	golang.org/x/crypto v0.36.0
)

require golang.org/x/sys v0.31.0 // indirect
