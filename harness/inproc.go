package main

import (
	"context"
	"net"

	"github.com/luxfi/zmq/v4/internal/inproc"
)

var nilCtx = context.Background()

func inprocDial(addr string) (net.Conn, error) {
	return inproc.Transport{}.Dial(nilCtx, nil, addr)
}

func inprocListen(addr string) (net.Listener, error) {
	return inproc.Transport{}.Listen(nilCtx, addr)
}
