module mc

go 1.24.2

godebug cryptocustomrand=1

require (
	github.com/dchest/bcrypt_pbkdf v0.0.0-20150205184540-83f37f9c154a
	github.com/opencoff/sigtool v0.0.0
	golang.org/x/crypto v0.37.0
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/opencoff/go-fio v0.5.15 // indirect
	github.com/opencoff/go-mmap v0.1.6 // indirect
	github.com/pkg/xattr v0.4.10 // indirect
	github.com/planetscale/vtprotobuf v0.6.0 // indirect
	github.com/puzpuzpuz/xsync/v3 v3.5.1 // indirect
	golang.org/x/sys v0.32.0 // indirect
	google.golang.org/protobuf v1.36.6 // indirect
)

replace github.com/opencoff/sigtool => /repo
