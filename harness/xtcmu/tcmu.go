//go:build go1.22

// Package tcmu stands in for the package of that name: devices are opened
// without a kernel and only recorded.
package tcmu

import (
	real "github.com/tnarg/go-tcmu"
)

type (
	SCSICmd                = real.SCSICmd
	SCSIResponse           = real.SCSIResponse
	SCSIHandler            = real.SCSIHandler
	SCSICmdHandler         = real.SCSICmdHandler
	DevReadyFunc           = real.DevReadyFunc
	DataSizes              = real.DataSizes
	NaaWWN                 = real.NaaWWN
	WWN                    = real.WWN
	ReadWriterAt           = real.ReadWriterAt
	ReadWriterAtCmdHandler = real.ReadWriterAtCmdHandler
	InquiryInfo            = real.InquiryInfo
)

var (
	GenerateSerial         = real.GenerateSerial
	GenerateTestWWN        = real.GenerateTestWWN
	FixedString            = real.FixedString
	EmulateInquiry         = real.EmulateInquiry
	EmulateStdInquiry      = real.EmulateStdInquiry
	EmulateEvpdInquiry     = real.EmulateEvpdInquiry
	EmulateTestUnitReady   = real.EmulateTestUnitReady
	EmulateServiceActionIn = real.EmulateServiceActionIn
	EmulateReadCapacity16  = real.EmulateReadCapacity16
	CachingModePage        = real.CachingModePage
	EmulateModeSense       = real.EmulateModeSense
	EmulateModeSelect      = real.EmulateModeSelect
	EmulateRead            = real.EmulateRead
	EmulateWrite           = real.EmulateWrite
)

// Opened is the device opened last.
var Opened *SCSIHandler

type Device struct {
	scsi *SCSIHandler
}

func OpenTCMUDevice(devPath string, scsi *SCSIHandler) (*Device, error) {
	Opened = scsi
	return &Device{scsi}, nil
}

func (d *Device) GetDevConfig() string { return "go-tcmu//" + d.scsi.VolumeName }

func (d *Device) Sizes() DataSizes { return d.scsi.DataSizes }

func (d *Device) Close() error { return nil }
