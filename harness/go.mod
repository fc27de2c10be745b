module bpassverif

go 1.24

require (
	github.com/aarondl/bpass v0.0.0
	github.com/enceve/crypto v0.0.0-20160707101852-34d48bb93815
	golang.org/x/crypto v0.0.0-20221010152910-d6f0a8c073c2
	pgregory.net/rapid v1.3.0
)

replace github.com/aarondl/bpass => /repo

require (
	github.com/boombuler/barcode v1.0.1 // indirect
	github.com/gofrs/uuid v4.3.0+incompatible // indirect
	github.com/pquerna/otp v1.3.0 // indirect
	golang.org/x/sys v0.0.0-20221010170243-090e33056c14 // indirect
)
