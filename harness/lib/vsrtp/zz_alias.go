package vsrtp

// The rest of package github.com/pion/srtp/v3, unchanged.

import "github.com/pion/srtp/v3"

type (
	KeyingMaterialExporter = srtp.KeyingMaterialExporter
	ProtectionProfile = srtp.ProtectionProfile
	SessionKeys = srtp.SessionKeys
)

const (
	ProtectionProfileAeadAes128Gcm = srtp.ProtectionProfileAeadAes128Gcm
	ProtectionProfileAeadAes256Gcm = srtp.ProtectionProfileAeadAes256Gcm
	ProtectionProfileAes128CmHmacSha1_32 = srtp.ProtectionProfileAes128CmHmacSha1_32
	ProtectionProfileAes128CmHmacSha1_80 = srtp.ProtectionProfileAes128CmHmacSha1_80
	ProtectionProfileAes256CmHmacSha1_32 = srtp.ProtectionProfileAes256CmHmacSha1_32
	ProtectionProfileAes256CmHmacSha1_80 = srtp.ProtectionProfileAes256CmHmacSha1_80
	ProtectionProfileNullHmacSha1_32 = srtp.ProtectionProfileNullHmacSha1_32
	ProtectionProfileNullHmacSha1_80 = srtp.ProtectionProfileNullHmacSha1_80
)

var (
	ErrFailedToVerifyAuthTag = srtp.ErrFailedToVerifyAuthTag
	ErrMKINotFound = srtp.ErrMKINotFound
)
