// Package deps pins every module the checks use, so that go.mod and go.sum are complete.
package deps

import (
	_ "github.com/aceld/zinx/zasync_op"
	_ "github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	_ "github.com/aceld/zinx/znet"
	_ "github.com/aceld/zinx/znotify"
	_ "github.com/aceld/zinx/ztimer"
	_ "github.com/anishathalye/porcupine"
	_ "github.com/golang/protobuf/proto"
	_ "github.com/gorilla/websocket"
	_ "github.com/xtaci/kcp-go"
	_ "pgregory.net/rapid"
)
