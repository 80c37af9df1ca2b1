module verifharness

go 1.23

require (
	github.com/Ptt-official-app/go-bbs v0.0.0
	golang.org/x/text v0.3.8
)

require (
	github.com/anishathalye/porcupine v1.3.1
	golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f // indirect
)

replace github.com/Ptt-official-app/go-bbs => /repo
