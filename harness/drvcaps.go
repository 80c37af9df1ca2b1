package main

// Code generated: the recording driver with every combination of capabilities.

import "github.com/Ptt-official-app/go-bbs"

func withCaps(k *drv, mask int) bbs.Connector {
	switch mask {
	case 0:
		return struct {
			baseDrv
		}{baseDrv{k}}
	case 1:
		return struct {
			baseDrv
			capWB
		}{baseDrv{k}, capWB{k}}
	case 2:
		return struct {
			baseDrv
			capWA
		}{baseDrv{k}, capWA{k}}
	case 3:
		return struct {
			baseDrv
			capWB
			capWA
		}{baseDrv{k}, capWB{k}, capWA{k}}
	case 4:
		return struct {
			baseDrv
			capUA
		}{baseDrv{k}, capUA{k}}
	case 5:
		return struct {
			baseDrv
			capWB
			capUA
		}{baseDrv{k}, capWB{k}, capUA{k}}
	case 6:
		return struct {
			baseDrv
			capWA
			capUA
		}{baseDrv{k}, capWA{k}, capUA{k}}
	case 7:
		return struct {
			baseDrv
			capWB
			capWA
			capUA
		}{baseDrv{k}, capWB{k}, capWA{k}, capUA{k}}
	case 8:
		return struct {
			baseDrv
			capUC
		}{baseDrv{k}, capUC{k}}
	case 9:
		return struct {
			baseDrv
			capWB
			capUC
		}{baseDrv{k}, capWB{k}, capUC{k}}
	case 10:
		return struct {
			baseDrv
			capWA
			capUC
		}{baseDrv{k}, capWA{k}, capUC{k}}
	case 11:
		return struct {
			baseDrv
			capWB
			capWA
			capUC
		}{baseDrv{k}, capWB{k}, capWA{k}, capUC{k}}
	case 12:
		return struct {
			baseDrv
			capUA
			capUC
		}{baseDrv{k}, capUA{k}, capUC{k}}
	case 13:
		return struct {
			baseDrv
			capWB
			capUA
			capUC
		}{baseDrv{k}, capWB{k}, capUA{k}, capUC{k}}
	case 14:
		return struct {
			baseDrv
			capWA
			capUA
			capUC
		}{baseDrv{k}, capWA{k}, capUA{k}, capUC{k}}
	case 15:
		return struct {
			baseDrv
			capWB
			capWA
			capUA
			capUC
		}{baseDrv{k}, capWB{k}, capWA{k}, capUA{k}, capUC{k}}
	case 16:
		return struct {
			baseDrv
			capUD
		}{baseDrv{k}, capUD{k}}
	case 17:
		return struct {
			baseDrv
			capWB
			capUD
		}{baseDrv{k}, capWB{k}, capUD{k}}
	case 18:
		return struct {
			baseDrv
			capWA
			capUD
		}{baseDrv{k}, capWA{k}, capUD{k}}
	case 19:
		return struct {
			baseDrv
			capWB
			capWA
			capUD
		}{baseDrv{k}, capWB{k}, capWA{k}, capUD{k}}
	case 20:
		return struct {
			baseDrv
			capUA
			capUD
		}{baseDrv{k}, capUA{k}, capUD{k}}
	case 21:
		return struct {
			baseDrv
			capWB
			capUA
			capUD
		}{baseDrv{k}, capWB{k}, capUA{k}, capUD{k}}
	case 22:
		return struct {
			baseDrv
			capWA
			capUA
			capUD
		}{baseDrv{k}, capWA{k}, capUA{k}, capUD{k}}
	case 23:
		return struct {
			baseDrv
			capWB
			capWA
			capUA
			capUD
		}{baseDrv{k}, capWB{k}, capWA{k}, capUA{k}, capUD{k}}
	case 24:
		return struct {
			baseDrv
			capUC
			capUD
		}{baseDrv{k}, capUC{k}, capUD{k}}
	case 25:
		return struct {
			baseDrv
			capWB
			capUC
			capUD
		}{baseDrv{k}, capWB{k}, capUC{k}, capUD{k}}
	case 26:
		return struct {
			baseDrv
			capWA
			capUC
			capUD
		}{baseDrv{k}, capWA{k}, capUC{k}, capUD{k}}
	case 27:
		return struct {
			baseDrv
			capWB
			capWA
			capUC
			capUD
		}{baseDrv{k}, capWB{k}, capWA{k}, capUC{k}, capUD{k}}
	case 28:
		return struct {
			baseDrv
			capUA
			capUC
			capUD
		}{baseDrv{k}, capUA{k}, capUC{k}, capUD{k}}
	case 29:
		return struct {
			baseDrv
			capWB
			capUA
			capUC
			capUD
		}{baseDrv{k}, capWB{k}, capUA{k}, capUC{k}, capUD{k}}
	case 30:
		return struct {
			baseDrv
			capWA
			capUA
			capUC
			capUD
		}{baseDrv{k}, capWA{k}, capUA{k}, capUC{k}, capUD{k}}
	case 31:
		return struct {
			baseDrv
			capWB
			capWA
			capUA
			capUC
			capUD
		}{baseDrv{k}, capWB{k}, capWA{k}, capUA{k}, capUC{k}, capUD{k}}
	}
	panic("mask")
}
