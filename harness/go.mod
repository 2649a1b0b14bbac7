module aaa.verif/harness

go 1.24

require (
	github.com/aureleoules/btc v0.0.0
	golang.org/x/text v0.8.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/aureleoules/ecdsa v0.0.0-20191021220258-b559fa2a83d4 // indirect
	github.com/mr-tron/base58 v1.1.2 // indirect
	golang.org/x/crypto v0.0.0-20191011191535-87dc89f01550 // indirect
)

replace github.com/aureleoules/btc => /repo
