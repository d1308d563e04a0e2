//go:build cmds

package h

func init() {
	Registry["C22_Charsets"] = C22_Charsets
	Registry["C22_Counter"] = C22_Counter
	Registry["C22_DecodeCommand"] = C22_DecodeCommand
	Registry["C22_DecodeDeliver"] = C22_DecodeDeliver
	Registry["C22_DecodeDeliverReport"] = C22_DecodeDeliverReport
	Registry["C22_DecodeStatusReport"] = C22_DecodeStatusReport
	Registry["C22_DecodeSubmit"] = C22_DecodeSubmit
	Registry["C22_DecodeSubmitReport"] = C22_DecodeSubmitReport
	Registry["C22_Deliver"] = C22_Deliver
	Registry["C22_DeliverEmpty"] = C22_DeliverEmpty
	Registry["C22_DeliverRefused"] = C22_DeliverRefused
	Registry["C22_Long"] = C22_Long
	Registry["C22_Submit"] = C22_Submit
	Registry["C22_SubmitRefused"] = C22_SubmitRefused
	Registry["C22_Usage"] = C22_Usage
}
