package crayfish

//vf:use utils/ws

import (
	"os"
	"os/exec"
	"time"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/utils"
)

var vfBackend *utils.VfWsServer

// VfBackend puts a fake backend process in the place of the real one: serve
// answers its connections.
func VfBackend(symbolic bool, serve func(w *utils.VfWs)) *utils.VfWsServer {
	if vfBackend != nil {
		VfEnd(vfBackend)
	}
	s := &utils.VfWsServer{Serve: serve}
	vfBackend = s
	utils.VfWsStart(s, symbolic, "localhost:9081")
	return s
}

// VfRun is run in the place of Run: it starts no process.
func VfRun() {
	p, err := os.FindProcess(os.Getpid())
	if err != nil {
		panic(err)
	}
	Instance = &CrayfishInstance{LocalUUID: config.ConfigFile.UUID, cmd: &exec.Cmd{Process: p}}
	Instance.StartWebsocket()
}

// VfWait waits until the backend is connected.
func VfWait() bool {
	for i := 0; i < 5000; i++ {
		if c := Instance; c != nil && c.wsconn != nil {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// VfEnd ends the backend.
func VfEnd(s *utils.VfWsServer) {
	utils.VfWsStop(s)
	if c := Instance; c != nil {
		c.stopping = true
	}
}
