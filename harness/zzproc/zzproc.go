// Package zzproc stands in for the processor module, which is no part of the library.
package rawpanelproc

import rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"

func StateProcessor(*rwp.HWCState) {}
