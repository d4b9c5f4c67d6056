From b4ca8331d383b293e2974b806827c5fc67b86c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 01/67] fix: cmpp decoders reject bodies shorter than their
 layout instead of panicking

---
 codec/cmpp/connect.go  |  7 ++++++-
 codec/cmpp/delivery.go | 18 ++++++++++++++++++
 codec/cmpp/header.go   |  3 +++
 codec/cmpp/report.go   |  3 +++
 codec/cmpp/submit.go   | 23 ++++++++++++++++++++++-
 codec/packer.go        |  4 ++++
 6 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1ea9cbc..7b2f3b2 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -68,6 +68,9 @@ func (c *Connect) Encode() []byte {
 }
 
 func (c *Connect) Decode(seq uint32, frame []byte) error {
+	if len(frame) < ConnectPktLen-int(codec.HeadLen) {
+		return codec.ErrPacketTooShort
+	}
 	c.TotalLength = ConnectPktLen
 	c.CommandId = CMPP_CONNECT
 	c.SequenceId = seq
@@ -174,7 +177,9 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 	}
 	r.CommandId = CMPP_CONNECT_RESP
 	r.SequenceId = seq
-
+	if uint32(len(frame)) < r.TotalLength-codec.HeadLen {
+		return codec.ErrPacketTooShort
+	}
 	var index int
 	if V30.MajorMatchV(r.Version) {
 		index += 3
diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9ac61e5..3c9e5ac 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -102,6 +102,14 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.TotalLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = seq
+	// 不含短信内容的报文体长度
+	fixed := 65
+	if V30.MajorMatchV(d.Version) {
+		fixed = 97
+	}
+	if len(frame) < fixed {
+		return codec.ErrPacketTooShort
+	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
 	d.destId = utils.TrimStr(frame[29:39])
@@ -123,6 +131,9 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.msgLength = frame[index]
 	index++
 	l := int(d.msgLength)
+	if len(frame) < fixed+l {
+		return codec.ErrPacketTooShort
+	}
 	if d.registeredDelivery == 1 {
 		rpt := &Report{}
 		err := rpt.Decode(frame[index : index+l])
@@ -285,6 +296,13 @@ func (r *DeliveryRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_DELIVER_RESP
 	r.SequenceId = seq
+	bodyLen := 9
+	if V30.MajorMatchV(r.Version) {
+		bodyLen = 12
+	}
+	if len(frame) < bodyLen {
+		return codec.ErrPacketTooShort
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = DlyResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/cmpp/header.go b/codec/cmpp/header.go
index a9fe33d..e306f8a 100644
--- a/codec/cmpp/header.go
+++ b/codec/cmpp/header.go
@@ -26,6 +26,9 @@ func (header *MessageHeader) Encode() []byte {
 }
 
 func (header *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrPacketTooShort
+	}
 	header.TotalLength = binary.BigEndian.Uint32(frame[0:4])
 	header.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	header.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 57c2d2b..64cd779 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -64,6 +64,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < 60 {
+		return codec.ErrPacketTooShort
+	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 5d131a6..abbf679 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -164,6 +164,14 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.TotalLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = CMPP_SUBMIT
 	s.SequenceId = seq
+	// 不含手机号及短信内容的报文体长度
+	fixed := 118
+	if V30.MajorMatchV(s.Version) {
+		fixed = 151
+	}
+	if len(frame) < fixed {
+		return codec.ErrPacketTooShort
+	}
 	// msgId uint64
 	index := 8
 	s.pkTotal = frame[index]
@@ -211,6 +219,9 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
+	if len(frame) < fixed+l {
+		return codec.ErrPacketTooShort
+	}
 	s.termIds = frame[index : index+l]
 	index += l
 	if V30.MajorMatchV(s.Version) {
@@ -221,9 +232,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.destTerminalId = utils.TrimStr(s.termIds)
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < fixed+l+int(s.msgLength) {
+		return codec.ErrPacketTooShort
+	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.msgContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -297,6 +311,13 @@ func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_SUBMIT_RESP
 	r.SequenceId = seq
+	bodyLen := 9
+	if V30.MajorMatchV(r.Version) {
+		bodyLen = 12
+	}
+	if len(frame) < bodyLen {
+		return codec.ErrPacketTooShort
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = MtResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/packer.go b/codec/packer.go
index 35bf4ff..fe89140 100644
--- a/codec/packer.go
+++ b/codec/packer.go
@@ -2,6 +2,7 @@ package codec
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/hrygo/log"
 )
@@ -14,6 +15,9 @@ const (
 	PacketMax        = 5120
 )
 
+// ErrPacketTooShort 报文体长度不足，无法解析出协议要求的全部字段
+var ErrPacketTooShort = errors.New("packet is too short")
+
 type Operation interface {
 	ToInt() uint32
 	OpLog() log.Field
-- 
2.43.0


From 567bbab887f63a5bb21cf4a356343159baeb3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 02/67] fix: sgip decoders reject bodies shorter than their
 layout instead of panicking

---
 codec/sgip/bind.go    |  6 ++++++
 codec/sgip/deliver.go |  9 +++++++++
 codec/sgip/header.go  |  3 +++
 codec/sgip/report.go  |  6 ++++++
 codec/sgip/submit.go  | 14 +++++++++++++-
 codec/sgip/unbind.go  |  6 ++++++
 6 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 7639e50..17c8e9c 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -46,6 +46,9 @@ func (b *Bind) Encode() []byte {
 }
 
 func (b *Bind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < BindPkgLen-int(codec.HeadLen)-8 {
+		return codec.ErrPacketTooShort
+	}
 	b.PacketLength = codec.HeadLen + uint32(len(frame))
 	b.CommandId = SGIP_BIND
 	b.SequenceNumber = make([]uint32, 3)
@@ -104,6 +107,9 @@ func (r *BindRsp) Encode() []byte {
 }
 
 func (r *BindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < BindRspPkgLen-int(codec.HeadLen) {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_BIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a8c26c4..a580d38 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -78,6 +78,9 @@ func (d *Deliver) Encode() []byte {
 }
 
 func (d *Deliver) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 57 {
+		return codec.ErrPacketTooShort
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = SGIP_DELIVER
 	d.SequenceNumber = make([]uint32, 3)
@@ -99,6 +102,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	index++
 	d.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)-index) < uint64(d.MessageLength) {
+		return codec.ErrPacketTooShort
+	}
 	d.MessageContent = frame[index : index+int(d.MessageLength)]
 	index += int(d.MessageLength)
 	d.Reserve = ""
@@ -140,6 +146,9 @@ func (d *Deliver) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *DeliverRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_DELIVER_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/header.go b/codec/sgip/header.go
index 140270f..59a8b34 100644
--- a/codec/sgip/header.go
+++ b/codec/sgip/header.go
@@ -30,6 +30,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen)+8 {
+		return codec.ErrPacketTooShort
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 36ed683..dc2fe97 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -54,6 +54,9 @@ func (r *Report) Encode() []byte {
 }
 
 func (r *Report) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 44 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT
 	r.SequenceNumber = make([]uint32, 3)
@@ -109,6 +112,9 @@ func (r *Report) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *ReportRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 9c3ddf6..d5f1d90 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -148,6 +148,9 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 123 {
+		return codec.ErrPacketTooShort
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = SGIP_SUBMIT
 	s.SequenceNumber = make([]uint32, 3)
@@ -163,6 +166,9 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index += 21
 	s.UserCount = frame[index]
 	index++
+	if len(frame) < 123+21*int(s.UserCount) {
+		return codec.ErrPacketTooShort
+	}
 	s.UserNumber = make([]string, s.UserCount)
 	for i := 0; i < int(s.UserCount); i++ {
 		s.UserNumber[i] = utils.TrimStr(frame[index : index+21])
@@ -200,9 +206,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index++
 	s.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)-index) < uint64(s.MessageLength) {
+		return codec.ErrPacketTooShort
+	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -300,6 +309,9 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *SubmitRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_SUBMIT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index b625bf9..def4657 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -21,6 +21,9 @@ func (u *Unbind) Encode() []byte {
 }
 
 func (u *Unbind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrPacketTooShort
+	}
 	u.PacketLength = codec.HeadLen + 8
 	u.CommandId = SGIP_UNBIND
 	u.SequenceNumber = make([]uint32, 3)
@@ -51,6 +54,9 @@ func (r *UnbindRsp) Encode() []byte {
 }
 
 func (r *UnbindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + 8
 	r.CommandId = SGIP_UNBIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
-- 
2.43.0


From 085953681586ba6f1934dabd111a2a7ac337275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 03/67] fix: smgp decoders reject bodies shorter than their
 layout instead of panicking

---
 codec/smgp/deliver.go | 13 +++++++++++++
 codec/smgp/header.go  |  3 +++
 codec/smgp/login.go   |  6 ++++++
 codec/smgp/report.go  |  5 +++++
 codec/smgp/submit.go  | 16 ++++++++++++++--
 5 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 3040ca7..41874f3 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -109,6 +109,9 @@ func (d *Delivery) Encode() []byte {
 }
 
 func (d *Delivery) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 69 {
+		return codec.ErrPacketTooShort
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.RequestId = SMGP_DELIVER
 	d.SequenceId = seq
@@ -127,6 +130,13 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	index += 21
 	d.msgLength = frame[index]
 	index += 1
+	l := int(d.msgLength)
+	if d.IsReport() {
+		l = RptLen
+	}
+	if len(frame) < index+l {
+		return codec.ErrPacketTooShort
+	}
 	if d.IsReport() {
 		d.report = &Report{}
 		err := d.report.Decode(frame[index : index+RptLen])
@@ -212,6 +222,9 @@ func (r *DeliverRsp) Encode() []byte {
 }
 
 func (r *DeliverRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_DELIVER_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/header.go b/codec/smgp/header.go
index 1d65812..3bf90b3 100644
--- a/codec/smgp/header.go
+++ b/codec/smgp/header.go
@@ -27,6 +27,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrPacketTooShort
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.RequestId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 8fa8b9e..c252c49 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -70,6 +70,9 @@ func (l *Login) Encode() []byte {
 }
 
 func (l *Login) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginLen-int(codec.HeadLen) {
+		return codec.ErrPacketTooShort
+	}
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
@@ -164,6 +167,9 @@ func (r *LoginRsp) Encode() []byte {
 }
 
 func (r *LoginRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginRespLen-int(codec.HeadLen) {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_LOGIN_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/report.go b/codec/smgp/report.go
index 863f387..5055ec0 100644
--- a/codec/smgp/report.go
+++ b/codec/smgp/report.go
@@ -3,6 +3,8 @@ package smgp
 import (
 	"fmt"
 	"time"
+
+	"github.com/hrygo/gosms/codec"
 )
 
 type Report struct {
@@ -83,6 +85,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < RptLen {
+		return codec.ErrPacketTooShort
+	}
 	index := 3 // skip "id:"
 	rt.id = frame[index : index+10]
 	index += 10
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 4883506..da95885 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -144,6 +144,9 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 114 {
+		return codec.ErrPacketTooShort
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.RequestId = SMGP_SUBMIT
 	s.SequenceId = seq
@@ -175,14 +178,20 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destTermIDCount = frame[index]
 	index++
+	if len(frame) < 114+21*int(s.destTermIDCount) {
+		return codec.ErrPacketTooShort
+	}
 	for i := byte(0); i < s.destTermIDCount; i++ {
 		s.destTermID = append(s.destTermID, utils.TrimStr(frame[index:index+21]))
 		index += 21
 	}
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < index+int(s.msgLength)+8 {
+		return codec.ErrPacketTooShort
+	}
 	content := frame[index : index+int(s.msgLength)]
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 	}
 	index += int(s.msgLength)
@@ -190,7 +199,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.reserve = utils.TrimStr(frame[index : index+8])
 	index += 8
 	// 一个tlv至少5字节
-	if uint32(index+5) < s.PacketLength {
+	if index+5 <= len(frame) {
 		buf := bytes.NewBuffer(frame[index:])
 		s.tlvList, _ = utils.Read(buf)
 	}
@@ -232,6 +241,9 @@ func (r *SubmitRsp) Encode() []byte {
 }
 
 func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_SUBMIT_RESP
 	r.SequenceId = seq
-- 
2.43.0


From b908e7b785e7b58491115cb9fc07f1ce6def589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 04/67] fix: cmpp 2.x submit with more than 12 recipients is
 decoded at the right offsets

---
 codec/cmpp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index abbf679..a01fde7 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -215,7 +215,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destUsrTl = frame[index]
 	index++
-	l := int(s.destUsrTl * 21)
+	l := int(s.destUsrTl) * 21
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
-- 
2.43.0


From 2203719062ac2912c4d37665dabc3178fdcb233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 05/67] fix: cmpp delivery decoding keeps the destination
 number and fills the service id

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 3c9e5ac..21594a3 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -112,7 +112,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
-	d.destId = utils.TrimStr(frame[29:39])
+	d.serviceId = utils.TrimStr(frame[29:39])
 	d.tpPid = frame[39]
 	d.tpUdhi = frame[40]
 	d.msgFmt = frame[41]
-- 
2.43.0


From 437aaf119fd569e4f592a1a35d730ba05700b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 06/67] fix: only UCS2 parts of a long message are converted
 from UCS2 when decoding

---
 codec/cmpp/submit.go | 5 ++++-
 codec/sgip/submit.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index a01fde7..6adc3f3 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -239,7 +239,10 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.msgContent = content
 	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		s.msgContent = content
+		if s.msgFmt == 8 {
+			s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	index += int(s.msgLength)
 	if V30.MajorMatchV(s.Version) {
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index d5f1d90..8b9b6e3 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -213,7 +213,10 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	s.MessageContent = content
 	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		s.MessageContent = content
+		if s.MessageCoding == 8 {
+			s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	s.Reserve = ""
 	return nil
-- 
2.43.0


From de6b7944916855a0beb87ba1c6c0870ad6575921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 07/67] fix: sgip reports are sent with the report command id

---
 codec/sgip/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index dc2fe97..e1dd16f 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -25,7 +25,7 @@ const DlvPackLen = 64
 func NewReport(phone string, mtSequence []uint32, status Status, code byte) codec.RequestPdu {
 	dlv := &Report{}
 	dlv.PacketLength = DlvPackLen
-	dlv.CommandId = SGIP_DELIVER
+	dlv.CommandId = SGIP_REPORT
 	dlv.SequenceNumber = Sequencer.NextVal()
 	dlv.MtSequence = mtSequence
 	dlv.UserNumber = phone
-- 
2.43.0


From f01a76bdee9d872c9e7f72c997914146fd2eb376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 08/67] fix: smgp long message part numbers start from 1

---
 codec/smgp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index da95885..2f006b5 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -95,7 +95,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 			l += 5
 			sub.tlvList.Add(PkTotal, []byte{byte(len(slices))})
 			l += 5
-			sub.tlvList.Add(PkNumber, []byte{byte(i)})
+			sub.tlvList.Add(PkNumber, []byte{byte(i + 1)})
 			l += 5
 			sub.PacketLength = uint32(MtBaseLen + len(sub.destTermID)*21 + int(sub.msgLength) + l)
 			messages = append(messages, sub)
-- 
2.43.0


From fc8e61d158309da73074223084dac37e50e58209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 09/67] fix: smgp deliver response echoes the delivered message
 id, report length field matches the report

---
 codec/smgp/deliver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 41874f3..d5ada83 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -75,7 +75,7 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.SequenceId = seq
 	dlv.msgId = codec.BcdSeq.NextVal()
 	dlv.report = NewReport(msgId)
-	dlv.msgLength = 115
+	dlv.msgLength = byte(RptLen)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
@@ -160,7 +160,7 @@ func (d *Delivery) ToResponse(code uint32) codec.Pdu {
 	resp.PacketLength = 26
 	resp.SequenceId = d.SequenceId
 	resp.status = Status(code)
-	resp.msgId = codec.BcdSeq.NextVal()
+	resp.msgId = d.msgId
 	return resp
 }
 
-- 
2.43.0


From c1c9d4092154407c885c0e0b041d0d595716d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 10/67] fix: smgp client ids shorter than 8 bytes are trimmed
 when a login is decoded

---
 codec/smgp/login.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index c252c49..e9d988f 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -76,7 +76,7 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
-	l.clientID = string(frame[0:8])
+	l.clientID = utils.TrimStr(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
 	l.timestamp = binary.BigEndian.Uint32(frame[25:29])
-- 
2.43.0


From dd2d0a28e2d92fae3ac53f71bbd350e0e4ae91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 11/67] fix: WithMtOptions applies the given options

---
 codec/options_mt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/options_mt.go b/codec/options_mt.go
index cb002a8..5a88492 100644
--- a/codec/options_mt.go
+++ b/codec/options_mt.go
@@ -37,7 +37,7 @@ type MtOptions struct {
 // WithMtOptions 设置配置项
 func WithMtOptions(opt *MtOptions) OptionFunc {
 	return func(mtOps *MtOptions) {
-		mtOps = opt
+		*mtOps = *opt
 	}
 }
 
-- 
2.43.0


From 2347d36cc7250c988e05ec4ca52c1bd2e513da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 12/67] fix: the cycle sequence keeps data center, worker and
 counter in separate bits

---
 utils/cycle_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index 66d1294..de2581b 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -18,7 +18,7 @@ type CycleSequence struct {
 const (
 	sequenceMask    = int32(0x03ffffff)         // 最大值为26个1
 	workerBits      = uint(3)                   // 机器id所占位数
-	sequenceBits    = uint(28)                  // 序列所占的位数
+	sequenceBits    = uint(26)                  // 序列所占的位数
 	workerShift     = sequenceBits              // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits // 数据中心id左移位数
 )
-- 
2.43.0


From 9c22ea3345f31b90c022bd161e901d7d048acd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 13/67] fix: the last part of a long message carries the end of
 the message

---
 utils/utils.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 9867d88..38250a2 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -196,10 +196,13 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 	headLen := 6
 	bodyLen := pkgLen - headLen
 	parts := len(content) / bodyLen
-	tailLen := len(content) % bodyLen
-	if tailLen != 0 {
+	if len(content)%bodyLen != 0 {
 		parts++
 	}
+	// UDH中总片数仅有一个字节
+	if parts > 255 {
+		return nil
+	}
 	// 分片消息组的标识，用于收集组装消息
 	groupId := byte(time.Now().UnixNano() & 0xff)
 	var part []byte
@@ -208,7 +211,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 			part = make([]byte, pkgLen)
 		} else {
 			// 最后一片
-			part = make([]byte, 6+tailLen)
+			part = make([]byte, headLen+len(content)-bodyLen*i)
 		}
 		part[0], part[1], part[2] = 0x05, 0x00, 0x03
 		part[3] = groupId
@@ -216,7 +219,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 		if i != parts-1 {
 			copy(part[6:pkgLen], content[bodyLen*i:bodyLen*(i+1)])
 		} else {
-			copy(part[6:], content[0:tailLen])
+			copy(part[6:], content[bodyLen*i:])
 		}
 		rt = append(rt, part)
 	}
-- 
2.43.0


From 21603edcf83a8a531d62a463181b6125b8f90ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 14/67] fix: cmpp deliveries carry and decode their UCS2
 content with the declared length

---
 codec/cmpp/delivery.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 21594a3..7805ef1 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -84,10 +84,11 @@ func (d *Delivery) Encode() []byte {
 		// 状态报告
 		copy(frame[index:index+l], d.report.Encode())
 	} else {
-		// 上行短信，不支持长短信，固定选用第一片 （New时需处理）
-		slices := utils.MsgSlices(d.msgFmt, d.msgContent)
-		// 不支持长短信，固定选用第一片
-		content := slices[0]
+		// 上行短信，不支持长短信（New时已截断）
+		content := []byte(d.msgContent)
+		if d.msgFmt == 8 {
+			content, _ = utils.Utf8ToUcs2(d.msgContent)
+		}
 		copy(frame[index:index+l], content)
 	}
 	index += l
@@ -142,7 +143,15 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		}
 		d.report = rpt
 	} else {
-		d.msgContent = utils.TrimStr(frame[index : index+l])
+		if d.msgFmt == 8 {
+			content, err := utils.Ucs2ToUtf8(frame[index : index+l])
+			if err != nil {
+				return err
+			}
+			d.msgContent = string(content)
+		} else {
+			d.msgContent = utils.TrimStr(frame[index : index+l])
+		}
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
@@ -170,13 +179,19 @@ func setMsgContent(dly *Delivery, msg string) {
 	dly.msgFmt = utils.MsgFmt(msg)
 	var l int
 	if dly.msgFmt == 8 {
-		l = 2 * len([]rune(msg))
-		if l > 140 {
-			// 只取前70个字符
-			rs := []rune(msg)
-			msg = string(rs[:70])
-			l = 140
+		// 只取编码后不超过140字节的前若干字符
+		rs := []rune(msg)
+		if len(rs) > 70 {
+			rs = rs[:70]
+		}
+		msg = string(rs)
+		bs, _ := utils.Utf8ToUcs2(msg)
+		for len(bs) > 140 {
+			rs = rs[:len(rs)-1]
+			msg = string(rs)
+			bs, _ = utils.Utf8ToUcs2(msg)
 		}
+		l = len(bs)
 	} else {
 		l = len(msg)
 		if l > 160 {
-- 
2.43.0


From eda04be8206327ebeb25ce869b145a6a2119d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 15/67] fix: smgp delivery content never exceeds the length its
 one byte field can declare

---
 codec/smgp/deliver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index d5ada83..679f899 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -60,6 +60,12 @@ func NewDeliver(ac *codec.AuthConf, phone string, destNo string, txt string, seq
 		subTxt = string(rs)
 	}
 	gbs, _ := GbEncoder.String(subTxt)
+	for len(gbs) > 140 {
+		// 四字节编码的字符较多时，按编码后的长度截取
+		rs = rs[:len(rs)-1]
+		subTxt = string(rs)
+		gbs, _ = GbEncoder.String(subTxt)
+	}
 	msg := []byte(gbs)
 	dlv.msgBytes = msg
 	dlv.msgLength = byte(len(msg))
-- 
2.43.0


From 5f477b3676c35060a554f87a884e1703741398d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 16/67] fix: submits for more recipients than the count field
 can hold are refused

---
 codec/cmpp/submit.go | 4 ++++
 codec/sgip/submit.go | 4 ++++
 codec/smgp/submit.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 6adc3f3..ba28a10 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -50,6 +50,10 @@ type Submit struct {
 }
 
 func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32, opts ...codec.OptionFunc) (messages []codec.RequestPdu) {
+	// 接收号码数量字段仅有一个字节
+	if len(phones) > 255 {
+		return nil
+	}
 	options := codec.LoadMtOptions(opts...)
 	baseLen := 138
 	if V30.MajorMatch(ac.Version) {
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 8b9b6e3..71af510 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -62,6 +62,10 @@ type Submit struct {
 const MtBaseLen = 143
 
 func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...codec.OptionFunc) (messages []codec.RequestPdu) {
+	// 接收号码数量字段仅有一个字节
+	if len(phones) > 255 {
+		return nil
+	}
 	mt := &Submit{}
 	mt.PacketLength = MtBaseLen
 	mt.CommandId = SGIP_SUBMIT
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 2f006b5..1628f8c 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -51,6 +51,10 @@ type SubmitRsp struct {
 const MtBaseLen = 126
 
 func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32, options ...codec.OptionFunc) (messages []codec.RequestPdu) {
+	// 接收号码数量字段仅有一个字节
+	if len(phones) > 255 {
+		return nil
+	}
 	mt := &Submit{Version: Version(ac.Version)}
 	mt.PacketLength = MtBaseLen
 	mt.RequestId = SMGP_SUBMIT
-- 
2.43.0


From fb753afdc2ce71acef98abf82b92cca7da38a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 17/67] fix: sgip text fields never spill into the fields that
 follow them

---
 codec/sgip/deliver.go |  6 +++---
 codec/sgip/report.go  | 10 +++++-----
 codec/sgip/submit.go  | 20 ++++++++++----------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a580d38..7d9c90b 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -59,9 +59,9 @@ func NewDeliver(ac *codec.AuthConf, phone, content, destNo string) codec.Request
 func (d *Deliver) Encode() []byte {
 	frame := d.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], d.UserNumber)
+	copy(frame[index:index+21], d.UserNumber)
 	index += 21
-	copy(frame[index:], d.SPNumber)
+	copy(frame[index:index+21], d.SPNumber)
 	index += 21
 	frame[index] = d.TpPid
 	index++
@@ -73,7 +73,7 @@ func (d *Deliver) Encode() []byte {
 	index += 4
 	copy(frame[index:], d.MessageContent)
 	index += len(d.MessageContent)
-	copy(frame[index:], d.Reserve)
+	copy(frame[index:index+8], d.Reserve)
 	return frame
 }
 
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index e1dd16f..0117dd9 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -37,19 +37,19 @@ func NewReport(phone string, mtSequence []uint32, status Status, code byte) code
 func (r *Report) Encode() []byte {
 	frame := r.MessageHeader.Encode()
 	index := 20
-	for _, seq := range r.MtSequence {
-		binary.BigEndian.PutUint32(frame[index:], seq)
-		index += 4
+	for i := 0; i < 3 && i < len(r.MtSequence); i++ {
+		binary.BigEndian.PutUint32(frame[index+4*i:], r.MtSequence[i])
 	}
+	index += 12
 	frame[index] = r.ReportType
 	index++
-	copy(frame[index:], r.UserNumber)
+	copy(frame[index:index+21], r.UserNumber)
 	index += 21
 	frame[index] = byte(r.State)
 	index++
 	frame[index] = r.ErrorCode
 	index++
-	copy(frame[index:], r.Reserve)
+	copy(frame[index:index+8], r.Reserve)
 	return frame
 }
 
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 71af510..e8f887a 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -103,25 +103,25 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...c
 func (s *Submit) Encode() []byte {
 	frame := s.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], s.SPNumber)
+	copy(frame[index:index+21], s.SPNumber)
 	index += 21
-	copy(frame[index:], s.ChargeNumber)
+	copy(frame[index:index+21], s.ChargeNumber)
 	index += 21
 	frame[index] = s.UserCount
 	index++
 	for _, p := range s.UserNumber {
-		copy(frame[index:], p)
+		copy(frame[index:index+21], p)
 		index += 21
 	}
-	copy(frame[index:], s.CorpId)
+	copy(frame[index:index+5], s.CorpId)
 	index += 5
-	copy(frame[index:], s.ServiceType)
+	copy(frame[index:index+10], s.ServiceType)
 	index += 10
 	frame[index] = s.FeeType
 	index++
-	copy(frame[index:], s.FeeValue)
+	copy(frame[index:index+6], s.FeeValue)
 	index += 6
-	copy(frame[index:], s.GivenValue)
+	copy(frame[index:index+6], s.GivenValue)
 	index += 6
 	frame[index] = s.AgentFlag
 	index++
@@ -129,9 +129,9 @@ func (s *Submit) Encode() []byte {
 	index++
 	frame[index] = s.Priority
 	index++
-	copy(frame[index:], s.ExpireTime)
+	copy(frame[index:index+16], s.ExpireTime)
 	index += 16
-	copy(frame[index:], s.ScheduleTime)
+	copy(frame[index:index+16], s.ScheduleTime)
 	index += 16
 	frame[index] = s.ReportFlag
 	index++
@@ -147,7 +147,7 @@ func (s *Submit) Encode() []byte {
 	index += 4
 	copy(frame[index:], s.MessageContent)
 	index += len(s.MessageContent)
-	copy(frame[index:], s.Reserve)
+	copy(frame[index:index+8], s.Reserve)
 	return frame
 }
 
-- 
2.43.0


From 87ed2f43bb2d84466c4b523037e3c8d45eb8d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 18/67] fix: smgp submits honour report, priority and valid
 time options and their configured defaults

---
 codec/smgp/submit.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 1628f8c..a66854e 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -382,14 +382,12 @@ func (r *SubmitRsp) Status() Status {
 
 func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 	s.needReport = ac.NeedReport
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.NeedReport != 0 {
+	if options.NeedReport != uint8(0xf) {
 		s.needReport = options.NeedReport
 	}
 
 	s.priority = ac.DefaultMsgLevel
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.MsgLevel != 0 {
+	if options.MsgLevel != uint8(0xf) {
 		s.priority = options.MsgLevel
 	}
 
@@ -402,13 +400,12 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.atTime = options.AtTime
 	}
 
-	vt := time.Now()
 	if options.ValidTime != "" {
 		s.validTime = options.ValidTime
 	} else {
-		vt.Add(ac.MtValidDuration)
+		vt := time.Now().Add(ac.MtValidDuration)
+		s.validTime = utils.FormatTime(vt)
 	}
-	s.validTime = utils.FormatTime(vt)
 
 	s.srcTermID = ac.SmsDisplayNo
 	if options.SpSubNo != "" {
-- 
2.43.0


From 8e45537732e54e5e35e23220e401f2899f3e4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 19/67] fix: smgp submits honour the fee options

---
 codec/smgp/submit.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index a66854e..6b0c71b 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -59,13 +59,24 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 	mt.PacketLength = MtBaseLen
 	mt.RequestId = SMGP_SUBMIT
 	mt.SequenceId = seq
-	mt.SetOptions(ac, codec.LoadMtOptions(options...))
+	opts := codec.LoadMtOptions(options...)
+	mt.SetOptions(ac, opts)
 	mt.msgType = 6
 	// 从配置文件设置属性
 	mt.feeType = ac.FeeType
 	mt.feeCode = ac.FeeCode
 	mt.chargeTermID = ac.FeeTerminalId
 	mt.fixedFee = ac.FixedFee
+	// 传参优先于配置
+	if opts.FeeType != "" {
+		mt.feeType = opts.FeeType
+	}
+	if opts.FeeCode != "" {
+		mt.feeCode = opts.FeeCode
+	}
+	if opts.FeeTerminalId != "" {
+		mt.chargeTermID = opts.FeeTerminalId
+	}
 	// 初步设置入参
 	mt.destTermID = phones
 	mt.destTermIDCount = byte(len(phones))
-- 
2.43.0


From c80788989c9d5be6c667c140170f6a66d009840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 20/67] fix: snowflake ids stay unique when the clock goes
 backwards

---
 utils/snowflake/snowflake.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/snowflake/snowflake.go b/utils/snowflake/snowflake.go
index fb92cc3..c3c59da 100644
--- a/utils/snowflake/snowflake.go
+++ b/utils/snowflake/snowflake.go
@@ -36,6 +36,10 @@ func (s *Snowflake) NextVal() int64 {
 	s.Lock()
 	defer s.Unlock()
 	now := time.Now().UnixNano() / 1000000 // 转毫秒
+	if now < s.timestamp {
+		// 时钟回拨时沿用上次的时间戳，避免重复
+		now = s.timestamp
+	}
 	if s.timestamp == now {
 		// 当同一时间戳（精度：毫秒）下多次生成id会增加序列号
 		s.sequence = (s.sequence + 1) & sequenceMask
-- 
2.43.0


From 7d8aa3ac0cc0f7444020197817dbb6b6417b1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 21/67] fix: snowflake32 does not spin for a day when its
 counter overflows at midnight

---
 utils/snowflake32/snowflake32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 1e8c2f9..0f30dc3 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -43,7 +43,7 @@ func (s *Snowflake) NextVal() int32 {
 		if s.sequence == 0 {
 			// 如果当前序列超出9bit长度，则需要等待下一秒
 			// 下一秒将使用sequence:0
-			for now <= s.seconds {
+			for now == s.seconds {
 				time.Sleep(time.Microsecond)
 				now = passedSeconds()
 			}
-- 
2.43.0


From 5afef2a7462607f7cc59ed943237ce246635396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 22/67] fix: the server handles every complete frame of a read
 and never drops the bytes that follow a body-less frame

---
 msc_server/server/on_traffic.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 0bc76ad..01ed342 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -17,18 +17,24 @@ import (
 )
 
 func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
-	cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
-	if ok {
+	// 一次可读事件可能包含多个完整的数据包，需全部处理
+	for {
+		cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
+		if !ok {
+			return action
+		}
 		switch s.name {
 		case CMPP:
-			return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
 		case SGIP:
-			return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
 		case SMGP:
-			return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+		}
+		if action != gnet.None {
+			return action
 		}
 	}
-	return action
 }
 
 // TrafficHandler Don't Read From gnet.Conn.
@@ -93,9 +99,12 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 	// 消息体通过长度检查后,跳过消息头的前8字节
 	_, _ = c.Discard(12)
 
-	// 读取消息体
-	buff, _ = c.Peek(int(pkl - 12))
-	_, _ = c.Discard(int(pkl - 12))
+	// 读取消息体（无消息体时不能读取，Peek(0)、Discard(0)会作用于整个缓存）
+	buff = nil
+	if pkl > 12 {
+		buff, _ = c.Peek(int(pkl - 12))
+		_, _ = c.Discard(int(pkl - 12))
+	}
 	// buff returned by Peek() is not allowed to be passed to a new goroutine, as this []byte will be reused within event-loop.
 	// If you have to use buf in a new goroutine, then you need to make a copy of buf and pass this copy to that new goroutine.
 	newBuff := make([]byte, len(buff))
-- 
2.43.0


From 248fa972e313437799daba0583d167601e670f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:54 +0000
Subject: [PATCH 23/67] fix: closing a refused connection does not change the
 number of active sessions

---
 msc_server/server/on_close.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index c4c334e..69fc74a 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -14,6 +14,11 @@ var logDb = msc.New("CounterDB")
 func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 	msg := fmt.Sprintf("[%s] OnClose ===", s.name)
 	sc := Session(c)
+	if sc == nil {
+		// 达到连接数阈值被拒绝的连接，没有会话，无需清理
+		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})...)
+		return
+	}
 	defer deferFunc(c, s, sc)
 
 	fields := FlatMapLog(sc.LogSession(), s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})
-- 
2.43.0


From 92ab9a61fab50f02c91313b7617265d34920bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:55 +0000
Subject: [PATCH 24/67] fix: tasks still running when a session is closed
 neither block forever nor use a nil connection

---
 msc_server/server/on_close.go |  8 +++-----
 msc_server/server/session.go  | 18 +++++-------------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index 69fc74a..98028c0 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -29,12 +29,10 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 }
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
-	sc.closeResource() // 关闭通道，释放线程池
+	sc.closeResource() // 释放线程池
+	s.Lock()
+	defer s.Unlock()
 	s.sessionPool.Delete(sc.Id())
 	s.activeSessions -= 1
 	c.SetContext(nil)
-	if sc != nil {
-		sc.conn = nil
-		sc = nil
-	}
 }
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 9232444..bc82627 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -25,6 +25,7 @@ type session struct {
 	stat        stat            // 会话状态
 	nAt         byte            // 未接收到响应的心跳次数
 	createTime  time.Time       // 创建时间
+	remote      string          // 客户端地址
 	lastUseTime time.Time       // 接收到客户端的 active/active_resp 或 mt 消息会更新该时间
 	window      chan struct{}   // 流控所需通道，登录成功后需设置此值，否则消息不能正常收发
 	pool        *goroutine.Pool // 会话级别的线程池，登录成功后需设置此值，否则消息不能正常收发
@@ -50,6 +51,7 @@ func NewSession(c gnet.Conn) *session {
 	se.id = uint64(codec.B64Seq.NextVal())
 	se.stat = StatConnect
 	se.conn = c
+	se.remote = c.RemoteAddr().String()
 	se.createTime = time.Now()
 	se.lastUseTime = time.Now()
 	return se
@@ -77,7 +79,6 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
-	s.closeResource()
 	s.window = make(chan struct{}, ac.MtWindowSize)
 	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
 	s.setupLimiter(ac)
@@ -94,21 +95,16 @@ func (s *session) setupLimiter(ac *codec.AuthConf) {
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-// 关闭通道和线程池
+// 释放线程池。
+// 注意：连接关闭时可能还有未执行完的任务，不能关闭或置空它们正在使用的通道和连接，否则任务会异常或永久阻塞。
 func (s *session) closeResource() {
 	if s == nil {
 		return
 	}
 
-	if s.window != nil {
-		close(s.window)
-		s.window = nil
-	}
 	if s.pool != nil {
 		s.pool.Release()
-		s.pool = nil
 	}
-	s.limiter = nil
 }
 
 func (s *session) Window() chan struct{} {
@@ -172,15 +168,11 @@ func (s *session) LogSession(size ...int) []log.Field {
 	if cliName == "" {
 		cliName = "not login"
 	}
-	remote := "closed"
-	if s.conn != nil {
-		remote = s.conn.RemoteAddr().String()
-	}
 	return append(ret,
 		log.String(SrvName, s.serverName),
 		log.String(CliName, cliName),
 		log.Uint64(Sid, s.Id()),
-		log.String(RemoteAddr, remote))
+		log.String(RemoteAddr, s.remote))
 }
 
 func (s *session) LogCounter() []log.Field {
-- 
2.43.0


From d17ac57609cbd072820423d59ea5f4ad7048e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:56 +0000
Subject: [PATCH 25/67] fix: concurrent connections never exceed the configured
 number of sessions

---
 msc_server/server/on_open.go | 4 ++--
 msc_server/server/server.go  | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/msc_server/server/on_open.go b/msc_server/server/on_open.go
index fc3e0c0..1fb5eed 100644
--- a/msc_server/server/on_open.go
+++ b/msc_server/server/on_open.go
@@ -12,12 +12,12 @@ import (
 func (s *Server) OnOpen(c gnet.Conn) (out []byte, action gnet.Action) {
 	var msg = fmt.Sprintf("[%s] OnOpen ===", s.name)
 
-	if s.ActiveSessions() >= s.sessionPoolCap {
+	sc := s.CreateSession(c)
+	if sc == nil {
 		// 已达到连接数阈值时，拒绝新的连接
 		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpFlowControl.Field(), SErrField(msc.ErrorsSessionThreshReached)})...)
 		return nil, gnet.Close
 	} else {
-		sc := s.CreateSession(c)
 		log.Info(msg, FlatMapLog(sc.LogSession(), s.LogCounter())...)
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 11a63c5..c458208 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -78,9 +78,14 @@ func New(name string) *Server {
 	}
 }
 
+// CreateSession 创建会话，已达到连接数阈值时返回 nil
 func (s *Server) CreateSession(c gnet.Conn) *session {
 	s.Lock()
 	defer s.Unlock()
+	// 检查和计数需在同一次加锁内完成，否则并发连接会突破阈值
+	if s.activeSessions >= s.sessionPoolCap {
+		return nil
+	}
 	sc := NewSession(c)
 	sc.serverName = s.name
 	c.SetContext(sc)
@@ -103,6 +108,8 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 }
 
 func (s *Server) ActiveSessions() int {
+	s.Lock()
+	defer s.Unlock()
 	return s.activeSessions
 }
 
-- 
2.43.0


From 6c3d1fa60723ce6277896382bef8e4967d286f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 26/67] fix: concurrent logins of a client never exceed its
 maximum number of connections

---
 msc_server/server/cmpp_connect.go |  4 ++--
 msc_server/server/cmpp_submit.go  |  2 +-
 msc_server/server/on_tick.go      |  2 +-
 msc_server/server/server.go       | 18 +++++++++++++++++-
 msc_server/server/session.go      | 12 ++++++++++--
 msc_server/server/sgip_bind.go    |  4 ++--
 msc_server/server/sgip_submit.go  |  2 +-
 msc_server/server/smgp_login.go   |  4 ++--
 msc_server/server/smgp_submit.go  |  4 ++--
 9 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 9cf83d1..10049ce 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -50,8 +50,8 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	if code == cmpp.ConnStatusOK {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		// 检查和占位需在同一次加锁内完成，否则同一客户端并发登录会突破上限
+		if !s.admitClient(sc, cli) {
 			code = cmpp.ConnStatusOthers
 		}
 	}
diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index e446a4d..6ccf1fc 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -91,7 +91,7 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func cmppSubmitPacketCheck(s *session, mt *cmpp.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
 	check := strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
 	if check {
 		check = mt.MsgLevel() < 10
diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 45e6dc6..ae405f7 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -119,7 +119,7 @@ func mockDelivery(s *Server, sc *session) {
 		return
 	}
 
-	cli := msc.FindAuthConf(s.name, sc.clientId)
+	cli := msc.FindAuthConf(s.name, sc.ClientId())
 	if cli == nil {
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index c458208..f3babe5 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -11,6 +11,7 @@ import (
 	"github.com/panjf2000/gnet/v2"
 	"github.com/panjf2000/gnet/v2/pkg/pool/goroutine"
 
+	"github.com/hrygo/gosms/codec"
 	bs "github.com/hrygo/gosms/msc_server"
 )
 
@@ -97,9 +98,24 @@ func (s *Server) CreateSession(c gnet.Conn) *session {
 func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	s.Lock()
 	defer s.Unlock()
+	return s.countSession(clientId)
+}
+
+// 检查客户端的会话数是否已达上限，未达上限时将会话记到该客户端名下
+func (s *Server) admitClient(sc *session, ac *codec.AuthConf) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.countSession(ac.ClientId) >= ac.MaxConns {
+		return false
+	}
+	sc.setClientId(ac.ClientId)
+	return true
+}
+
+func (s *Server) countSession(clientId string) (counter int) {
 	s.sessionPool.Range(func(key, value any) bool {
 		s, ok := value.(*session)
-		if ok && s.clientId == clientId {
+		if ok && s.ClientId() == clientId {
 			counter += 1
 		}
 		return true
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index bc82627..20f7412 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -84,6 +84,12 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 	s.setupLimiter(ac)
 }
 
+func (s *session) setClientId(clientId string) {
+	s.Lock()
+	defer s.Unlock()
+	s.clientId = clientId
+}
+
 func (s *session) setupLimiter(ac *codec.AuthConf) {
 	// 默认1W微妙即10毫秒生成一个token，也即tps最大200
 	ev := 10 * time.Millisecond
@@ -127,6 +133,8 @@ func (s *session) Id() uint64 {
 }
 
 func (s *session) ClientId() string {
+	s.Lock()
+	defer s.Unlock()
 	return s.clientId
 }
 
@@ -164,7 +172,7 @@ func (s *session) LogSession(size ...int) []log.Field {
 	} else if size[0] > 8 {
 		ret = make([]log.Field, 0, size[0])
 	}
-	cliName := s.clientId
+	cliName := s.ClientId()
 	if cliName == "" {
 		cliName = "not login"
 	}
@@ -180,7 +188,7 @@ func (s *session) LogCounter() []log.Field {
 	if s != nil {
 		mt, dlv, rpt = s.counter.mt, s.counter.dly, s.counter.report
 	}
-	ac := msc.FindAuthConf(s.serverName, s.clientId)
+	ac := msc.FindAuthConf(s.serverName, s.ClientId())
 	if ac == nil {
 		ac = &codec.AuthConf{}
 	}
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d747d9..e86ea53 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -50,8 +50,8 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	if code == sgip.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(ac.ClientId)
-		if activeSession >= ac.MaxConns {
+		// 检查和占位需在同一次加锁内完成，否则同一客户端并发登录会突破上限
+		if !s.admitClient(sc, ac) {
 			code = sgip.Status(3)
 		}
 	}
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index ce53561..aeb008b 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -87,7 +87,7 @@ func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func sgipSubmitPacketCheck(s *session, mt *sgip.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
 	check := strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority < 10
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 47613d9..060b6d5 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -50,8 +50,8 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	if code == smgp.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		// 检查和占位需在同一次加锁内完成，否则同一客户端并发登录会突破上限
+		if !s.admitClient(sc, cli) {
 			code = smgp.Status(2)
 		}
 	}
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 29e8bba..1224186 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -92,7 +92,7 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func smgpSubmitPacketCheck(s *session, mt *smgp.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
 	check := strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority() < 4
@@ -109,7 +109,7 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 	}
 	msg := fmt.Sprintf("[%s] OnTraffic %s", sc.serverName, SD)
 
-	cli := msc.FindAuthConf(sc.serverName, sc.clientId)
+	cli := msc.FindAuthConf(sc.serverName, sc.ClientId())
 	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
 	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
-- 
2.43.0


From e344eef84e91cfb8b9fe2d5e874a94d3f5a9e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:47 +0000
Subject: [PATCH 27/67] fix: a session logs in at most once and never after it
 was closed

---
 msc_server/my_errors.go           |  1 +
 msc_server/server/cmpp_connect.go | 11 +++++------
 msc_server/server/on_tick.go      |  4 ++--
 msc_server/server/on_traffic.go   | 12 +++++++++++-
 msc_server/server/session.go      | 17 ++++++++++++++++-
 msc_server/server/sgip_bind.go    | 11 +++++------
 msc_server/server/smgp_login.go   | 11 +++++------
 7 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/msc_server/my_errors.go b/msc_server/my_errors.go
index db2aab7..6b3a5d2 100644
--- a/msc_server/my_errors.go
+++ b/msc_server/my_errors.go
@@ -8,4 +8,5 @@ const (
 	ErrorsIllegalPacketLength    = "Illegal packet length %d"
 	ErrorsIllegalCommand         = "Illegal command %0x"
 	ErrorsSubmitFlowControl      = "Submit message flow control"
+	ErrorsRepeatedLogin          = "session has already logged in or is closing"
 )
diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 10049ce..261f630 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -17,6 +17,9 @@ var cmppConnect TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 	login := &cmpp.Connect{}
 	sc := Session(c)
+	if !loginCheck(sc) {
+		return false, gnet.Close
+	}
 	err := login.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -59,13 +62,9 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	resp := login.ToResponse(uint32(code))
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
-		if code == cmpp.ConnStatusOK {
-			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
-		} else {
+		if code != cmpp.ConnStatusOK || !sc.completeLogin(cli) {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.closing()
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index ae405f7..1b8226d 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -33,11 +33,11 @@ func (s *Server) OnTick() (delay time.Duration, action gnet.Action) {
 				log.Info(msg, FlatMapLog(session.LogSession(), session.LogCounter())...)
 			}
 			// 发送心跳测试
-			if pass && session.stat == StatLogin {
+			if pass && session.Stat() == StatLogin {
 				activeTest(s, session)
 			}
 			// 发送模拟上行消息
-			if pass && session.stat == StatLogin {
+			if pass && session.Stat() == StatLogin {
 				mockDelivery(s, session)
 			}
 		}
diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 01ed342..07be069 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -147,7 +147,7 @@ func sendSubmitResponse(sc *session, pdu codec.RequestPdu, result uint32) (codec
 }
 
 func sessionCheck(s *session) bool {
-	if s.stat != StatLogin {
+	if s.Stat() != StatLogin {
 		log.Error(fmt.Sprintf("[%s] OnTraffic %s", s.ServerName(), RC),
 			FlatMapLog(s.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsDecodePacketBody)})...)
 		return false
@@ -155,6 +155,16 @@ func sessionCheck(s *session) bool {
 	return true
 }
 
+// 只有尚未登录的会话才能登录
+func loginCheck(s *session) bool {
+	if s.Stat() != StatConnect {
+		log.Error(fmt.Sprintf("[%s] OnTraffic %s", s.ServerName(), RC),
+			FlatMapLog(s.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsRepeatedLogin)})...)
+		return false
+	}
+	return true
+}
+
 func decodeErrorLog(s *session, buff []byte) {
 	log.Error(fmt.Sprintf("[%s] OnTraffic %s", s.ServerName(), RC),
 		FlatMapLog(s.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsDecodePacketBody), Packet2HexLogStr(buff)})...)
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 20f7412..27c94ec 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -71,10 +71,14 @@ func createSessionSidePool(size int) *goroutine.Pool {
 	return pool
 }
 
-func (s *session) completeLogin(ac *codec.AuthConf) {
+// 仅尚未登录且未关闭的会话才能完成登录
+func (s *session) completeLogin(ac *codec.AuthConf) bool {
 	// 设置会话信息及会话级别资源，此代码非常重要！！！
 	s.Lock()
 	defer s.Unlock()
+	if s.stat != StatConnect {
+		return false
+	}
 	s.stat = StatLogin
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
@@ -82,6 +86,14 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 	s.window = make(chan struct{}, ac.MtWindowSize)
 	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
 	s.setupLimiter(ac)
+	return true
+}
+
+// 会话进入关闭状态，不再接收业务消息，也不能再登录
+func (s *session) closing() {
+	s.Lock()
+	defer s.Unlock()
+	s.stat = StatClosing
 }
 
 func (s *session) setClientId(clientId string) {
@@ -108,6 +120,7 @@ func (s *session) closeResource() {
 		return
 	}
 
+	s.closing()
 	if s.pool != nil {
 		s.pool.Release()
 	}
@@ -143,6 +156,8 @@ func (s *session) Ver() byte {
 }
 
 func (s *session) Stat() stat {
+	s.Lock()
+	defer s.Unlock()
 	return s.stat
 }
 
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index e86ea53..7f6f8a2 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -17,6 +17,9 @@ var sgipBind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 	login := &sgip.Bind{}
 	sc := Session(c)
+	if !loginCheck(sc) {
+		return false, gnet.Close
+	}
 	err := login.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -59,13 +62,9 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	resp := login.ToResponse(uint32(code))
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
-		if code == sgip.Status(0) {
-			sc.completeLogin(ac)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
-		} else {
+		if code != sgip.Status(0) || !sc.completeLogin(ac) {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.closing()
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 060b6d5..1df218a 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -17,6 +17,9 @@ var smgpLogin TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 	login := &smgp.Login{}
 	sc := Session(c)
+	if !loginCheck(sc) {
+		return false, gnet.Close
+	}
 	err := login.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -59,13 +62,9 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	resp := login.ToResponse(uint32(code))
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
-		if code == smgp.Status(0) {
-			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
-		} else {
+		if code != smgp.Status(0) || !sc.completeLogin(cli) {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.closing()
 			_ = c.Flush()
 			_ = c.Close()
 		}
-- 
2.43.0


From 90af01e5884c8079a05db0de5c0a35639e682b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:49 +0000
Subject: [PATCH 28/67] fix: a client configured without a window size is still
 served

---
 msc_server/server/session.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 27c94ec..b12fa0b 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -83,8 +83,13 @@ func (s *session) completeLogin(ac *codec.AuthConf) bool {
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
-	s.window = make(chan struct{}, ac.MtWindowSize)
-	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
+	size := ac.MtWindowSize
+	if size < 1 {
+		// 未配置窗口大小时通道不可写（或创建失败），会话所有任务将永久阻塞
+		size = 1
+	}
+	s.window = make(chan struct{}, size)
+	s.pool = createSessionSidePool(size * 2)
 	s.setupLimiter(ac)
 	return true
 }
-- 
2.43.0


From 8eb6ef3e6253b376cdfd5164af00a392a6c371eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:14 +0000
Subject: [PATCH 29/67] fix: session state shared between goroutines is only
 accessed under its lock

---
 msc_server/server/cmpp_delivery_resp.go |  3 +--
 msc_server/server/on_tick.go            |  4 ++--
 msc_server/server/server.go             |  2 +-
 msc_server/server/session.go            | 25 ++++++++++++++++++++-----
 msc_server/server/smgp_delivery_resp.go |  3 +--
 5 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 8eb9df6..1505dae 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"fmt"
-	"time"
 
 	"github.com/hrygo/log"
 	"github.com/panjf2000/gnet/v2"
@@ -49,6 +48,6 @@ func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
-	sc.lastUseTime = time.Now()
+	sc.touch()
 	// TODO more actions
 }
diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 1b8226d..dfff40f 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -47,7 +47,7 @@ func (s *Server) OnTick() (delay time.Duration, action gnet.Action) {
 }
 
 func activeTestNoneResponseCheck(s *Server, sc *session) bool {
-	if sc.nAt > 2 {
+	if sc.NAt() > 2 {
 		msg := fmt.Sprintf("[%s] OnTick ===", s.name)
 		// 发送关闭指令
 		sendTerminate(s, sc)
@@ -74,7 +74,7 @@ func closeCheck(s *Server, sc *session) bool {
 func activeTest(s *Server, sc *session) {
 	_ = s.goPool.Submit(func() {
 		// 如果使用时间在1分钟前则发送心跳
-		if sc.lastUseTime.Add(time.Minute).Before(time.Now()) {
+		if sc.LastUseTime().Add(time.Minute).Before(time.Now()) {
 			msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
 			var active codec.RequestPdu
 			var seq = uint32(codec.B32Seq.NextVal())
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index f3babe5..cc764e3 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -105,7 +105,7 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 func (s *Server) admitClient(sc *session, ac *codec.AuthConf) bool {
 	s.Lock()
 	defer s.Unlock()
-	if s.countSession(ac.ClientId) >= ac.MaxConns {
+	if sc.ClientId() != "" || s.countSession(ac.ClientId) >= ac.MaxConns {
 		return false
 	}
 	sc.setClientId(ac.ClientId)
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index b12fa0b..42f7444 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -167,6 +167,8 @@ func (s *session) Stat() stat {
 }
 
 func (s *session) NAt() byte {
+	s.Lock()
+	defer s.Unlock()
 	return s.nAt
 }
 
@@ -175,6 +177,8 @@ func (s *session) CreateTime() time.Time {
 }
 
 func (s *session) LastUseTime() time.Time {
+	s.Lock()
+	defer s.Unlock()
 	return s.lastUseTime
 }
 
@@ -205,8 +209,13 @@ func (s *session) LogSession(size ...int) []log.Field {
 
 func (s *session) LogCounter() []log.Field {
 	var mt, dlv, rpt uint64 = 0, 0, 0
+	var pool *goroutine.Pool
+	var window chan struct{}
 	if s != nil {
+		s.Lock()
 		mt, dlv, rpt = s.counter.mt, s.counter.dly, s.counter.report
+		pool, window = s.pool, s.window
+		s.Unlock()
 	}
 	ac := msc.FindAuthConf(s.serverName, s.ClientId())
 	if ac == nil {
@@ -216,17 +225,17 @@ func (s *session) LogCounter() []log.Field {
 	// 防止未登录而未初始化pool时的空指针异常。
 	free := 0
 	pcap := 0
-	if s.pool != nil {
-		free = s.pool.Free()
-		pcap = s.pool.Cap()
+	if pool != nil {
+		free = pool.Free()
+		pcap = pool.Cap()
 	}
 
 	return []log.Field{
 		log.Int(LogKeyClientConnsCap, ac.MaxConns),
 		log.Int(LogKeySessionPoolFree, free),
 		log.Int(LogKeySessionPoolCap, pcap),
-		log.Int(LogKeySessionSwCur, len(s.window)),
-		log.Int(LogKeySessionSwCap, cap(s.window)),
+		log.Int(LogKeySessionSwCur, len(window)),
+		log.Int(LogKeySessionSwCap, cap(window)),
 		log.Uint64(LogKeyCounterMt, mt),
 		log.Uint64(LogKeyCounterDlv, dlv),
 		log.Uint64(LogKeyCounterRpt, rpt),
@@ -237,6 +246,12 @@ func (s *session) ServerName() string {
 	return s.serverName
 }
 
+func (s *session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.lastUseTime = time.Now()
+}
+
 func (s *session) CounterAddMt() {
 	s.Lock()
 	defer s.Unlock()
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index 3872e2f..f4517da 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"fmt"
-	"time"
 
 	"github.com/hrygo/log"
 	"github.com/panjf2000/gnet/v2"
@@ -49,7 +48,7 @@ func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
-	sc.lastUseTime = time.Now()
+	sc.touch()
 
 	// TODO more actions
 }
-- 
2.43.0


From 913714be4cece107bdf92a173b070695e14fcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 30/67] fix: closing an idle session does not block the event
 loop for a second

---
 msc_server/server/on_tick.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index dfff40f..9926da4 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -180,9 +180,8 @@ func sendTerminate(s *Server, sc *session) {
 		pack := term.Encode()
 		err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 			_ = sc.Conn().Flush()
-			// 给对方预留1秒钟响应连接关闭事件
-			time.Sleep(time.Second)
-			_ = sc.Conn().Close()
+			// 给对方预留1秒钟响应连接关闭事件，回调在 event-loop 中执行，不能阻塞
+			time.AfterFunc(time.Second, func() { _ = sc.Conn().Close() })
 			return nil
 		})
 		if err == nil {
-- 
2.43.0


From b81771e08d2f2cdc7115dfb4b91afb5a1fb5785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:16 +0000
Subject: [PATCH 31/67] fix: connections are only flushed from their event loop

---
 msc_server/server/cmpp_terminate_resp.go | 1 -
 msc_server/server/sgip_unbind_resp.go    | 1 -
 msc_server/server/smgp_exit_resp.go      | 1 -
 3 files changed, 3 deletions(-)

diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 2220091..0da0a6d 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -50,6 +50,5 @@ func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index b620c91..bbdcb3d 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -50,6 +50,5 @@ func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 06f199b..c847de6 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -50,6 +50,5 @@ func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
-- 
2.43.0


From 826e367881607bc12790d0ed89c94abc85b77207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 32/67] fix: cmpp delivery responses are decoded with the
 version of the session

---
 msc_server/server/cmpp_delivery_resp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 1505dae..956153d 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -19,7 +19,7 @@ var cmppDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 		return false, gnet.Close
 	}
 
-	pdu := &cmpp.DeliveryRsp{}
+	pdu := &cmpp.DeliveryRsp{Version: cmpp.Version(sc.ver)}
 	err := pdu.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
-- 
2.43.0


From 23876d84bd09cb1365e3d23bf259438092ade3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 33/67] fix: submits are still answered when the client is
 removed while it is connected

---
 msc_server/server/cmpp_submit.go | 3 +++
 msc_server/server/sgip_submit.go | 3 +++
 msc_server/server/smgp_submit.go | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index 6ccf1fc..f710332 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -92,6 +92,9 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 func cmppSubmitPacketCheck(s *session, mt *cmpp.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	if cli == nil {
+		return 0, nil
+	}
 	check := strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
 	if check {
 		check = mt.MsgLevel() < 10
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index aeb008b..34c4a49 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -88,6 +88,9 @@ func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 func sgipSubmitPacketCheck(s *session, mt *sgip.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	if cli == nil {
+		return 0, nil
+	}
 	check := strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority < 10
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 1224186..fe5ffff 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -93,6 +93,9 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 func smgpSubmitPacketCheck(s *session, mt *smgp.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	if cli == nil {
+		return 0, nil
+	}
 	check := strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority() < 4
@@ -110,6 +113,9 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 	msg := fmt.Sprintf("[%s] OnTraffic %s", sc.serverName, SD)
 
 	cli := msc.FindAuthConf(sc.serverName, sc.ClientId())
+	if cli == nil {
+		return
+	}
 	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
 	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
-- 
2.43.0


From 261d06f7e9bc8b6f5c7259ded00836779dcebee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 34/67] fix: a smgp submit without recipients does not panic
 when its report is built

---
 codec/smgp/deliver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 679f899..4c0108d 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -85,7 +85,9 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-	dlv.srcTermID = mt.destTermID[0]
+	if len(mt.destTermID) > 0 {
+		dlv.srcTermID = mt.destTermID[0]
+	}
 	dlv.destTermID = mt.srcTermID
 	dlv.PacketLength = baseLen + uint32(RptLen)
 	return dlv
-- 
2.43.0


From e0c9112de8220be4ee36a4f4c8192f8ba666c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 35/67] fix: RandNum does not panic on an empty range

---
 utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index 38250a2..bba2619 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -227,6 +227,9 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 }
 
 func RandNum(min, max int) int {
+	if max <= min {
+		return min
+	}
 	return rand.Intn(max-min) + min
 }
 
-- 
2.43.0


From c66031e832e8ea8d8ef2f123dc44b16383948e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:11 +0000
Subject: [PATCH 36/67] fix: the mongo password is not written to the log

---
 database/mongodb/mongo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/mongodb/mongo.go b/database/mongodb/mongo.go
index 6c98ec9..cc3facb 100644
--- a/database/mongodb/mongo.go
+++ b/database/mongodb/mongo.go
@@ -69,6 +69,6 @@ func setConnect(config yaml_config.YmlConfig, prefix string) *mongo.Client {
 	if err != nil {
 		log.Panic(err.Error())
 	}
-	log.Infof("Connected to %s", uri)
+	log.Infof("Connected to %s", config.GetString(prefix+".URI"))
 	return client
 }
-- 
2.43.0


From 1fe643a7fe4eee190c18f62843c45a1382d416c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 37/67] fix: sgip passwords are not written to the log

---
 msc_server/server/on_traffic.go | 7 ++++++-
 msc_server/server/sgip_bind.go  | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 07be069..439d4ea 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -109,7 +109,12 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 	// If you have to use buf in a new goroutine, then you need to make a copy of buf and pass this copy to that new goroutine.
 	newBuff := make([]byte, len(buff))
 	copy(newBuff, buff)
-	log.Debug(msg, FlatMapLog(sc.LogSession(), []log.Field{op.OpLog(), Packet2HexLogStr(newBuff)})...)
+	fields := []log.Field{op.OpLog()}
+	if s.name != SGIP || cmd != uint32(sgip.SGIP_BIND) {
+		// SGIP_BIND 报文包含明文密码，不能记录
+		fields = append(fields, Packet2HexLogStr(newBuff))
+	}
+	log.Debug(msg, FlatMapLog(sc.LogSession(), fields)...)
 
 	return cmd, seq, newBuff, gnet.None, true
 }
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 7f6f8a2..0c385c6 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -22,7 +22,7 @@ var sgipBind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 	}
 	err := login.Decode(seq, buff)
 	if err != nil {
-		decodeErrorLog(sc, buff)
+		decodeErrorLog(sc, nil) // 报文包含明文密码，不能记录
 		return false, gnet.Close
 	}
 
@@ -32,7 +32,7 @@ var sgipBind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 	})
 	if err != nil {
 		log.Error(fmt.Sprintf("[%s] OnTraffic %s", sc.ServerName(), RC),
-			FlatMapLog(sc.LogSession(), []log.Field{OpConnectionClose.Field(), ErrorField(err), Packet2HexLogStr(buff)})...)
+			FlatMapLog(sc.LogSession(), []log.Field{OpConnectionClose.Field(), ErrorField(err)})...)
 		return false, gnet.Close
 	}
 
-- 
2.43.0


From 45ce244d0c9a5b9e5f2cae7e93a5b8abbc076216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:42 +0000
Subject: [PATCH 38/67] fix: 32 bit sequences are built from their own data
 center and worker settings

---
 msc_client/bootstrap.go | 4 ++--
 msc_server/bootstrap.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index 8553c5b..bc69792 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -120,8 +120,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.Worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
diff --git a/msc_server/bootstrap.go b/msc_server/bootstrap.go
index 938ac38..ea5d20a 100644
--- a/msc_server/bootstrap.go
+++ b/msc_server/bootstrap.go
@@ -112,8 +112,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.Worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
-- 
2.43.0


From 279bbe9dac58f6d57f2e1965e509e5ec97170098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:44 +0000
Subject: [PATCH 39/67] fix: the configured level of a custom log is honoured

---
 msc_server/custom_log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_server/custom_log.go b/msc_server/custom_log.go
index 72b34fa..7572546 100644
--- a/msc_server/custom_log.go
+++ b/msc_server/custom_log.go
@@ -34,7 +34,7 @@ func New(name string, opts ...log.Option) *zap.Logger {
 		maxAge = 14
 	}
 	compress := ConfigYml.GetBool("Logs." + name + ".Compress")
-	level := log.Level(ConfigYml.GetInt("Logs" + name + "Level"))
+	level := log.Level(ConfigYml.GetInt("Logs." + name + ".Level"))
 
 	var top = []log.TeeOption{{
 		Filename:      BasePath + fileName,
-- 
2.43.0


From a0087f8b369c73d1d5e4192b33908debd467d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:45 +0000
Subject: [PATCH 40/67] fix: concurrent registrations never replace an event,
 and events receive their arguments

---
 event_manager/event_manage.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1133ec7..088ede0 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -62,13 +62,12 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
-	// 判断key下是否已有事件
-	if _, exists := m.Get(key); exists == false {
-		sMap.Store(key, func(args ...any) {
-			for _, fn := range events {
-				fn()
-			}
-		})
+	// 判断key下是否已有事件，判断和存储需为原子操作，否则并发注册时后者会覆盖前者
+	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
+		for _, fn := range events {
+			fn(args...)
+		}
+	}); !exists {
 		return true
 	} else {
 		log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
@@ -95,7 +94,7 @@ func (m *eventManage) Call(key string, args ...interface{}) {
 	}
 	if fn, exists := m.Get(key); exists {
 		log.Infof("Call: %#v, Key: %s", fn, key)
-		fn(args)
+		fn(args...)
 		log.Infof("Done: %#v, Key: %s", fn, key)
 
 	} else {
-- 
2.43.0


From 15cc2532250be89b0327d682a75351219c70f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:46 +0000
Subject: [PATCH 41/67] fix: clients are stored and found under the same key,
 and clients removed from the store are forgotten on reload

---
 auth/client_store.go |  6 ++++++
 auth/mongo_store.go  | 21 +++++++++++++++------
 auth/yaml_store.go   | 26 +++++++++++++++++++-------
 3 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/auth/client_store.go b/auth/client_store.go
index 1ff6d97..d853409 100644
--- a/auth/client_store.go
+++ b/auth/client_store.go
@@ -1,6 +1,7 @@
 package auth
 
 import (
+	"strings"
 	"sync"
 	"time"
 
@@ -28,6 +29,11 @@ type storage struct {
 	Config yaml_config.YmlConfig
 }
 
+// 客户端缓存的键，存入和查找均使用此键
+func cacheKey(isp, cid string) string {
+	return strings.ToLower(isp) + "_" + cid
+}
+
 func New(c yaml_config.YmlConfig) (cache Store) {
 	st := c.GetString("AuthClient.StoreType")
 	if "" == st || "yaml" == st || "yml" == st {
diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index a47b2c2..512f51c 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -2,7 +2,6 @@ package auth
 
 import (
 	"context"
-	"strings"
 
 	"github.com/hrygo/log"
 	"go.mongodb.org/mongo-driver/bson"
@@ -29,21 +28,31 @@ func (m *MongoStore) Load() {
 		return
 	}
 
-	m.Lock()
-	defer m.Unlock()
+	defer cursor.Close(ctx)
+
+	cache := make(map[string]*Client)
 	for cursor.Next(ctx) {
 		c := &Client{}
 		err := cursor.Decode(c)
 		if err != nil {
-			return
+			log.Error(err.Error())
+			continue
 		}
-		m.Cache[c.ISP+"_"+c.ClientId] = c
+		cache[cacheKey(c.ISP, c.ClientId)] = c
+	}
+	if err := cursor.Err(); err != nil {
+		// 未读取完整，继续使用原配置
+		log.Error(err.Error())
+		return
 	}
+	m.Lock()
+	defer m.Unlock()
+	m.Cache = cache
 }
 
 func (m *MongoStore) FindByCid(isp string, cid string) (c *Client) {
 	m.Lock()
 	defer m.Unlock()
-	client := m.Cache[strings.ToLower(isp)+"_"+cid]
+	client := m.Cache[cacheKey(isp, cid)]
 	return client
 }
diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 5701994..ad02dce 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -24,6 +24,7 @@ func (y *YamlStore) Load() {
 		log.Fatalf("Config file init error: %v", err)
 	}
 
+	cache := make(map[string]*Client)
 	for _, f := range fs {
 		f := f
 		if f.IsDir() {
@@ -45,27 +46,38 @@ func (y *YamlStore) Load() {
 			log.Fatalf("Config file init error: %v", err)
 		}
 
-		unmarshal(data, strings.ToLower(key), y)
+		unmarshal(data, key, y, cache)
 	}
+	y.Lock()
+	defer y.Unlock()
+	y.Cache = cache
 }
 
 func (y *YamlStore) FindByCid(isp string, cid string) *Client {
 	y.Lock()
 	defer y.Unlock()
-	client := y.Cache[strings.ToLower(isp)+"_"+cid]
+	client := y.Cache[cacheKey(isp, cid)]
 	return client
 }
 
-func unmarshal(data []byte, id string, y *YamlStore) {
-	y.Lock()
-	defer y.Unlock()
+func unmarshal(data []byte, id string, y *YamlStore, cache map[string]*Client) {
+	i := strings.Index(id, "_")
+	if i < 0 {
+		log.Errorf("Config file name error: %s", id)
+		return
+	}
+	isp, cid := strings.ToLower(id[:i]), id[i+1:]
 
 	cli := &Client{}
 	err := yaml.Unmarshal(data, cli)
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
+		// 配置有误时继续使用原配置
+		cli = y.FindByCid(isp, cid)
 	} else {
-		cli.ISP = id[0:4]
-		y.Cache[id] = cli
+		cli.ISP = isp
+	}
+	if cli != nil {
+		cache[cacheKey(isp, cid)] = cli
 	}
 }
-- 
2.43.0


From b8321cd0ae305c7dff82197ff770974ae43f39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:17 +0000
Subject: [PATCH 42/67] fix: a response that arrives immediately finds its
 submit, and a failed write keeps the results already sent

---
 msc_client/session/on_traffic_cmpp.go | 16 +++++++++-------
 msc_client/session/on_traffic_sgip.go | 16 +++++++++-------
 msc_client/session/on_traffic_smgp.go | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 0eabd81..9de0894 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -15,20 +15,22 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := cmpp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*cmpp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 先登记再发送，否则响应可能先于登记到达
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			return results
 		}
-		mtt := mt.(*cmpp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e1163d1..39ff8f2 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -14,20 +14,22 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := sgip.NewSubmit(s.authConf, []string{phone}, message, options...)
 	for _, mt := range mts {
+		mtt := mt.(*sgip.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = mtt.Sequence2Uint64()
+		r.Phone = phone
+		// 先登记再发送，否则响应可能先于登记到达
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			return results
 		}
-		mtt := mt.(*sgip.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = mtt.Sequence2Uint64()
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index dffad5a..f8c8b1d 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -15,20 +15,22 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := smgp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*smgp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 先登记再发送，否则响应可能先于登记到达
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			return results
 		}
-		mtt := mt.(*smgp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
-- 
2.43.0


From ebed8e3b1c42165d6e6ad339978dd43c8f653c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 43/67] fix: cmpp and smgp submit responses find the submit
 they answer

---
 msc_client/session/on_traffic_cmpp.go | 2 +-
 msc_client/session/on_traffic_smgp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 9de0894..bec1c3f 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -85,7 +85,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = sub.Result()
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index f8c8b1d..8f25814 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -85,7 +85,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = uint32(sub.Status())
-- 
2.43.0


From 981a84175a72828d505a3b05c2989b89e10629e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 44/67] fix: the client does not panic on a refused login
 response nor use a submit response it could not decode

---
 msc_client/session/on_traffic_cmpp.go | 3 ++-
 msc_client/session/on_traffic_sgip.go | 3 ++-
 msc_client/session/on_traffic_smgp.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index bec1c3f..a04c72f 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -46,7 +46,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
 		if err != nil || resp.Status() != cmpp.ConnStatusOK {
-			log.Error(err.Error())
+			log.Errorf("%s login refused, error: %v", receive, err)
 			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
@@ -84,6 +84,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 39ff8f2..41803aa 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -46,7 +46,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
 		if err != nil || resp.Status != sgip.Status(0) {
-			log.Error(err.Error())
+			log.Errorf("%s login refused, error: %v", receive, err)
 			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
@@ -69,6 +69,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 8f25814..87986fa 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -46,7 +46,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
 		if err != nil || resp.Status() != smgp.Status(0) {
-			log.Error(err.Error())
+			log.Errorf("%s login refused, error: %v", receive, err)
 			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
@@ -84,6 +84,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
-- 
2.43.0


From b813e7c28ffe947fc0bb0bc5f6af9a2b5aee4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 45/67] fix: the connection of a refused client login is closed

---
 msc_client/session/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 00ff0bd..5aa9dd8 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -49,6 +49,7 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 	err := sc.login()
 	if err != nil {
 		log.Error("create session error: " + err.Error())
+		_ = con.Close()
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
-- 
2.43.0


From 0bcabc9bdcd549e9dd255951a731a8ebbbdfcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 46/67] fix: the client reassembles packets that arrive in
 pieces and does not treat a short login response as success

---
 msc_client/session/session.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 5aa9dd8..6639441 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -118,8 +119,8 @@ func (s *Session) startReceiver() {
 						return
 					}
 					head := make([]byte, 12)
-					n, err := s.con.Read(head)
-					if n != 12 || err != nil {
+					_, err := io.ReadFull(s.con, head)
+					if err != nil {
 						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
 						s.Close()
 						return
@@ -138,8 +139,8 @@ func (s *Session) startReceiver() {
 					var bodyLen = int(pkl) - 12
 					if bodyLen > 0 {
 						buff = make([]byte, bodyLen)
-						n, err = s.con.Read(buff)
-						if n != bodyLen || err != nil {
+						_, err = io.ReadFull(s.con, buff)
+						if err != nil {
 							log.Errorf("[%s] Read Packet Body error: %v. Session closing...", s.serverName, err)
 							s.Close()
 							return
@@ -197,8 +198,8 @@ func (s *Session) login() error {
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
 	data := make([]byte, respLen)
-	n, err := s.con.Read(data[:])
-	if err != nil || n != respLen {
+	n, err := io.ReadFull(s.con, data)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 6ea9e326a4bdc2a9afdc4c2b7e808e4bb939abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 47/67] fix: a session whose heartbeat can not be sent is
 unhealthy

---
 msc_client/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 6639441..a3f75e4 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -295,7 +295,7 @@ func (s *Session) ActiveTest() error {
 		log.Info(msg, active.Log()...)
 	} else {
 		log.Error(msg + err.Error())
-		return nil
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 2da25fefdf9975f37fb4d4530e72cdcfc05afc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 48/67] fix: client sessions are closed once and their shared
 state is only accessed under the lock

---
 msc_client/session/on_traffic_cmpp.go |  2 +-
 msc_client/session/on_traffic_sgip.go |  2 +-
 msc_client/session/on_traffic_smgp.go |  2 +-
 msc_client/session/session.go         | 34 ++++++++++++++++++++-------
 4 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index a04c72f..bfee834 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -36,7 +36,7 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 41803aa..048aab9 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -36,7 +36,7 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 
 func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 87986fa..627cd9c 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -36,7 +36,7 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index a3f75e4..59986a7 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -54,16 +54,23 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
-	sc.startReceiver()
 	sc.createTime = time.Now()
-	sc.activeTime = time.Now()
+	sc.startReceiver()
 	return sc
 }
 
 func (s *Session) ResetCounter() {
+	s.Lock()
+	defer s.Unlock()
 	s.periodCounter = 0
 }
 
+func (s *Session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.activeTime = time.Now()
+}
+
 func (s *Session) AddCounter() {
 	s.AddCounterN(1)
 }
@@ -82,24 +89,27 @@ func (s *Session) LruPriority() uint64 {
 	if !s.HealthCheck() {
 		return 0
 	}
+	s.Lock()
+	defer s.Unlock()
 	return 1e10 - s.periodCounter
 }
 
 func (s *Session) Close() {
-	if s == nil || s.stat == StatClosing {
+	if s == nil {
 		return
 	}
 
 	s.Lock()
 	defer s.Unlock()
+	if s.stat == StatClosing {
+		return
+	}
 
-	// 关闭连接
+	// 关闭连接，其他 goroutine 可能正在使用 con 和 authConf，不能置空
 	s.stat = StatClosing
 	_ = s.con.Close()
 	// 发送取消信号
 	s.cancel <- struct{}{}
-	s.con = nil
-	s.authConf = nil
 }
 
 // startReceiver 启动接收服务
@@ -257,16 +267,24 @@ func (s *Session) login() error {
 			log.Info(fmt.Sprintf("[%s] Login result", s.serverName), resp.Log()...)
 		}
 	}
+	s.Lock()
+	defer s.Unlock()
 	s.stat = StatLogin
 	s.activeTime = time.Now()
 	return nil
 }
 
 func (s *Session) HealthCheck() bool {
-	ok := s != nil && s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	if s == nil {
+		return false
+	}
+	s.Lock()
+	ok := s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	idle := s.activeTime.Add(time.Minute).Before(time.Now())
+	s.Unlock()
 
 	// 活跃状态为1分钟前，则发送心跳验证
-	if ok && s.activeTime.Add(time.Minute).Before(time.Now()) {
+	if ok && idle {
 		err := s.ActiveTest()
 		if err != nil {
 			return false
-- 
2.43.0


From 154466acedbcfa955f30493117930e160bfb3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 49/67] fix: querying a message that could not be sent does not
 panic

---
 msc_client/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index a8da77c..d430146 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -43,7 +43,7 @@ func Query(queryId int64) []any {
 	value, ok := resultQueryCacheMap.Load(queryId)
 	if ok {
 		result, ok := value.([]any)
-		if ok {
+		if ok && len(result) > 0 {
 			_, ok := result[0].(*session.Result)
 			if ok {
 				return result
-- 
2.43.0


From 505dd105826be140fff885ee0882fb943b4b4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:27 +0000
Subject: [PATCH 50/67] fix: the client window falls back to its default when
 it is not configured

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 05e184b..dfc7935 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -118,7 +118,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	winSize := ConfigYml.GetInt(isp + ".mt-window-size")
-	if maxConns > 0 {
+	if winSize > 0 {
 		factory.window = make(chan struct{}, winSize)
 	} else {
 		factory.window = make(chan struct{}, 16)
-- 
2.43.0


From 72260e4b7aa5e2ac4e879d4ce892d35490c81466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:28 +0000
Subject: [PATCH 51/67] fix: sending without a usable session does not hang,
 sessions are only accessed under the lock

---
 msc_client/session_factory.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index dfc7935..6ef98ec 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -146,18 +146,32 @@ func (f *SessionFactory) PeekSession() *session.Session {
 		return nil
 	}
 
-	if len(f.sessions) > 0 && f.sessions[0] == nil && f.sessions[0].HealthCheck() {
-		return f.sessions[0]
+	// 最多等待1秒，没有可用的会话时返回 nil
+	for i := 0; i < 1000; i++ {
+		if sc := f.healthySession(); sc != nil {
+			return sc
+		}
+		time.Sleep(time.Millisecond)
 	}
+	return nil
+}
 
-	var ret *session.Session
-	for ret == nil || !ret.HealthCheck() {
-		time.Sleep(time.Millisecond)
-		if len(f.sessions) > 0 {
-			ret = f.sessions[0]
+// 排序后第一个正常的会话
+func (f *SessionFactory) healthySession() *session.Session {
+	f.Lock()
+	defer f.Unlock()
+	for _, sc := range f.sessions {
+		if sc.HealthCheck() {
+			return sc
 		}
 	}
-	return ret
+	return nil
+}
+
+func (f *SessionFactory) sessionCount() int {
+	f.Lock()
+	defer f.Unlock()
+	return len(f.sessions)
 }
 
 // StartCacheExpireTicker 过期数据定期检查器
@@ -300,7 +314,7 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	f.sessions = newSlice
 	f.Unlock()
 
-	for len(f.sessions) < maxConns {
+	for f.sessionCount() < maxConns {
 		select {
 		case <-cancel:
 			log.Info("Receive signal and stop create new connects.")
@@ -349,6 +363,8 @@ func (f *SessionFactory) newConnect() {
 func (f *SessionFactory) RegCloseSessionsHooker() {
 	event_manager.RegisterShutdownHooker(fmt.Sprintf("CloseSessionHooker_%p", f), func(args ...any) {
 		close(f.window)
+		f.Lock()
+		defer f.Unlock()
 		for _, sc := range f.sessions {
 			sc.Close()
 			log.Warnf("session %p closed.", sc)
-- 
2.43.0


From 072611a88f3bd3c6ed8de97089c79f9acc9ad5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:29 +0000
Subject: [PATCH 52/67] fix: a session factory is created once and never
 without a valid segment

---
 msc_client/session_factory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 6ef98ec..1d2599f 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -49,7 +49,7 @@ func SelectSession(phone string) *session.Session {
 	var fa *SessionFactory
 	for i, factory := range factories {
 		if factory == nil {
-			factory = CreateSessionFactory(ISPS[i])
+			factory = createSessionFactory(ISPS[i])
 			if factory == nil {
 				continue
 			}
@@ -69,6 +69,12 @@ func SelectSession(phone string) *session.Session {
 
 // CreateSessionFactory 创建或获取由isp指定的factory，isp需与sms.yml配置文件对应，否则会引起程序崩溃
 func CreateSessionFactory(isp string) *SessionFactory {
+	mu.Lock()
+	defer mu.Unlock()
+	return createSessionFactory(isp)
+}
+
+func createSessionFactory(isp string) *SessionFactory {
 	isp = strings.ToLower(isp)
 	saved := factories[ISP(isp).Int()]
 	if saved != nil {
@@ -97,6 +103,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	factory.regex, err = regexp.Compile(segment)
 	if err != nil {
 		log.Error(err.Error())
+		return nil
 	}
 
 	maxConns := ConfigYml.GetInt(isp + ".max-conns")
-- 
2.43.0


From 34c6e034223c98b8a975cde106bd9a22f06004d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:30 +0000
Subject: [PATCH 53/67] fix: the client error log uses its own level

---
 msc_client/bootstrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index bc69792..a84180a 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -104,7 +104,7 @@ func logInit() {
 				MaxBackups: ConfigYml.GetInt("Logs.Error.MaxBackups"),
 				Compress:   ConfigYml.GetBool("Logs.Error.Compress"),
 			},
-			Level: log.Level(ConfigYml.GetInt("Logs.Default.Level")),
+			Level: log.Level(ConfigYml.GetInt("Logs.Error.Level")),
 		},
 	}
 
-- 
2.43.0


From 645518380e6d1f2706fd28166e1cdfd8ad9276e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 54/67] fix: link test and termination responses have their own
 length, not the request's

---
 codec/sgip/unbind.go | 2 +-
 codec/smgp/active.go | 2 +-
 codec/smgp/exit.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index def4657..1c3b21c 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -35,7 +35,7 @@ func (u *Unbind) Decode(cid uint32, frame []byte) error {
 
 func (u *Unbind) ToResponse(_ uint32) codec.Pdu {
 	resp := &UnbindRsp{}
-	resp.PacketLength = u.PacketLength
+	resp.PacketLength = codec.HeadLen + 8
 	resp.CommandId = SGIP_UNBIND_RESP
 	resp.SequenceNumber = u.SequenceNumber
 	return resp
diff --git a/codec/smgp/active.go b/codec/smgp/active.go
index 73a315e..13b0c6a 100644
--- a/codec/smgp/active.go
+++ b/codec/smgp/active.go
@@ -27,7 +27,7 @@ func (t *ActiveTest) Decode(seq uint32, _ []byte) error {
 
 func (t *ActiveTest) ToResponse(_ uint32) codec.Pdu {
 	resp := ActiveTestRsp{}
-	resp.PacketLength = t.PacketLength
+	resp.PacketLength = codec.HeadLen
 	resp.RequestId = SMGP_ACTIVE_TEST_RESP
 	resp.SequenceId = t.SequenceId
 	return &resp
diff --git a/codec/smgp/exit.go b/codec/smgp/exit.go
index d5a39c1..1d1f070 100644
--- a/codec/smgp/exit.go
+++ b/codec/smgp/exit.go
@@ -27,7 +27,7 @@ func (t *Exit) Decode(seq uint32, _ []byte) error {
 
 func (t *Exit) ToResponse(_ uint32) codec.Pdu {
 	resp := ExitRsp{}
-	resp.PacketLength = t.PacketLength
+	resp.PacketLength = codec.HeadLen
 	resp.RequestId = SMGP_EXIT_RESP
 	resp.SequenceId = t.SequenceId
 	return &resp
-- 
2.43.0


From 1bf54197d0940c60d1c81efb9cc644c039101b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:54 +0000
Subject: [PATCH 55/67] fix: SGIP bind response carries its 8 reserved bytes

---
 codec/sgip/bind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 17c8e9c..5b0f5c0 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -10,7 +10,7 @@ import (
 )
 
 const BindPkgLen = 61
-const BindRspPkgLen = 21
+const BindRspPkgLen = 29 // 消息头20 + Result 1 + Reserve 8
 
 // Bind 登录报文结构体【61 bytes】
 type Bind struct {
@@ -77,7 +77,7 @@ func (b *Bind) Check(ac *codec.AuthConf) Status {
 
 func (b *Bind) ToResponse(code uint32) codec.Pdu {
 	rsp := &BindRsp{}
-	rsp.PacketLength = 21
+	rsp.PacketLength = BindRspPkgLen
 	rsp.CommandId = SGIP_BIND_RESP
 	rsp.SequenceNumber = b.SequenceNumber
 	rsp.Status = Status(code)
-- 
2.43.0


From 2a3d9e304d6eec13d653c0d24b87a7b4fb8a7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 56/67] fix: CMPP 3.0 status report uses the 32-byte
 destination number

---
 codec/cmpp/delivery.go |  2 +-
 codec/cmpp/report.go   | 27 ++++++++++++++++++++-------
 codec/cmpp/submit.go   |  6 ++++--
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 7805ef1..e60ab84 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -136,7 +136,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		return codec.ErrPacketTooShort
 	}
 	if d.registeredDelivery == 1 {
-		rpt := &Report{}
+		rpt := &Report{Version: d.Version}
 		err := rpt.Decode(frame[index : index+l])
 		if err != nil {
 			return err
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 64cd779..1d25179 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -13,8 +13,11 @@ type Report struct {
 	stat           string // 发送短信的应答结果。【7字节】
 	submitTime     string // yyMMddHHmm 【10字节】
 	doneTime       string // yyMMddHHmm 【10字节】
-	destTerminalId string // SP 发送 CMPP_SUBMIT 消息的目标终端  【21字节】
+	destTerminalId string // SP 发送 CMPP_SUBMIT 消息的目标终端  【21字节，CMPP3.0为32字节】
 	smscSequence   uint32 // 取自SMSC发送状态报告的消息体中的消息标识。【4字节】
+
+	// 协议版本,不是报文内容，但在调用encode/decode方法前需要设置此值
+	Version Version
 }
 
 func (rt *Report) String() string {
@@ -53,29 +56,39 @@ func NewReport(msgId uint64, destTerminalId string, submitTime string, doneTime
 }
 
 func (rt *Report) Encode() []byte {
-	frame := make([]byte, 60)
+	index := 35 + rt.destLen()
+	frame := make([]byte, index+4)
 	binary.BigEndian.PutUint64(frame[0:8], rt.msgId)
 	copy(frame[8:15], rt.stat)
 	copy(frame[15:25], rt.submitTime)
 	copy(frame[25:35], rt.doneTime)
-	copy(frame[35:56], rt.destTerminalId)
-	binary.BigEndian.PutUint32(frame[56:60], rt.smscSequence)
+	copy(frame[35:index], rt.destTerminalId)
+	binary.BigEndian.PutUint32(frame[index:index+4], rt.smscSequence)
 	return frame
 }
 
 func (rt *Report) Decode(frame []byte) error {
-	if len(frame) < 60 {
+	index := 35 + rt.destLen()
+	if len(frame) < index+4 {
 		return codec.ErrPacketTooShort
 	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
 	rt.doneTime = utils.TrimStr(frame[25:35])
-	rt.destTerminalId = utils.TrimStr(frame[35:56])
-	rt.smscSequence = binary.BigEndian.Uint32(frame[56:60])
+	rt.destTerminalId = utils.TrimStr(frame[35:index])
+	rt.smscSequence = binary.BigEndian.Uint32(frame[index : index+4])
 	return nil
 }
 
+// destLen Dest_terminal_Id字段的长度
+func (rt *Report) destLen() int {
+	if V30.MajorMatchV(rt.Version) {
+		return 32
+	}
+	return 21
+}
+
 func (rt *Report) MsgId() uint64 {
 	return rt.msgId
 }
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index ba28a10..6d69a6f 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -283,15 +283,16 @@ func (s *Submit) ToResponse(result uint32) codec.Pdu {
 func (s *Submit) ToDeliveryReport(msgId uint64) *Delivery {
 	d := Delivery{Version: s.Version}
 	d.TotalLength = 145
+	d.msgLength = 60
 	if V30.MajorMatchV(s.Version) {
-		d.TotalLength = 169
+		d.TotalLength = 180
+		d.msgLength = 71
 	}
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = uint32(codec.B32Seq.NextVal())
 
 	d.msgId = uint64(codec.B64Seq.NextVal())
 	d.registeredDelivery = 1
-	d.msgLength = 60
 	d.destId = s.srcId
 	d.serviceId = s.serviceId
 	d.srcTerminalId = s.destTerminalId
@@ -300,6 +301,7 @@ func (s *Submit) ToDeliveryReport(msgId uint64) *Delivery {
 	subTime := time.Now().Format("0601021504")
 	doneTime := time.Now().Add(10 * time.Second).Format("0601021504")
 	report := NewReport(msgId, s.destTerminalId, subTime, doneTime)
+	report.Version = s.Version
 	d.report = report
 	return &d
 }
-- 
2.43.0


From 682ca21540f4a0addcca520c4132603b1b2a703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 57/67] fix: refuse a text that cannot be converted instead of
 sending an empty message

---
 utils/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index bba2619..247a6aa 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -175,7 +175,11 @@ func MsgSlices(fmt uint8, content string) (slices [][]byte) {
 	var msgBytes []byte
 	// 含中文
 	if fmt == 8 {
-		msgBytes, _ = Utf8ToUcs2(content)
+		var err error
+		msgBytes, err = Utf8ToUcs2(content)
+		if err != nil {
+			return nil
+		}
 		slices = ToTPUDHISlices(msgBytes, 140)
 	} else {
 		// 纯英文
-- 
2.43.0


From 3700a79d0f1501c1b5488562e573578f33d7618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 58/67] fix: smgp Submit.String no longer slices decoded
 content by its encoded length

msgLength counts the bytes on the wire; after decoding (concatenation header
removed, GB18030 converted) msgContent can be shorter, so printing a received
message could panic.
---
 codec/smgp/submit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 6b0c71b..c07f9b3 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -233,8 +233,8 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 
 func (s *Submit) String() string {
 	bts := s.msgContent
-	if s.msgLength > 6 {
-		bts = s.msgContent[:6]
+	if len(bts) > 6 {
+		bts = bts[:6]
 	}
 	return fmt.Sprintf("{ header: %s, msgType: %v, NeedReport: %v, LruPriority: %v, ServiceID: %v, "+
 		"feeType: %v, feeCode: %v, fixedFee: %v, msgFormat: %v, validTime: %v, AtTime: %v, SrcTermID: %v, "+
-- 
2.43.0


From 59c38ab7988f16d72d2020f2c7a73f1d46340224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 59/67] fix: answer a throttled submission even when the
 session pool refuses the task

---
 msc_server/server/on_traffic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 439d4ea..b83ca10 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -125,9 +125,11 @@ func submitFlowControl(sc *session, mt codec.RequestPdu, errCode uint32) bool {
 	ok := sc.limiter.Allow()
 	if !ok {
 		//  流量控制错误响应结果异步发送
-		_ = sc.Pool().Submit(func() {
-			_, _ = sendSubmitResponse(sc, mt, errCode)
-		})
+		refuse := func() { _, _ = sendSubmitResponse(sc, mt, errCode) }
+		if err := sc.Pool().Submit(refuse); err != nil {
+			// 线程池已满或已关闭时直接发送（AsyncWrite 不阻塞），否则该请求不会得到响应
+			refuse()
+		}
 		msg := fmt.Sprintf("[%s] OnTraffic %s", sc.ServerName(), RC)
 		log.Warn(msg, FlatMapLog(sc.LogSession(), []log.Field{SErrField(msc.ErrorsSubmitFlowControl)})...)
 	}
-- 
2.43.0


From f0300d033b99f95f85c445035f8d4c1b578347b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 60/67] fix: send a status report only when the submission
 asked for one

---
 msc_server/server/cmpp_submit.go | 4 ++--
 msc_server/server/smgp_submit.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index f710332..05e7f0a 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -81,8 +81,8 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 	}
 	// n+1. SMSC异步发送消息
 	// ...
-	// n+m. 模拟发送状态报告
-	if result == uint32(cmpp.MtStatusOK) {
+	// n+m. 模拟发送状态报告（仅当SP要求返回状态报告时）
+	if result == uint32(cmpp.MtStatusOK) && mt.RegisteredDel() == 1 {
 		rsp := resp.(*cmpp.SubmitRsp)
 		mockSendCmppReport(sc, mt, rsp.MsgId())
 	}
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index fe5ffff..bdd2fea 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -82,8 +82,8 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 	}
 	// n+1. SMSC异步发送消息
 	// ...
-	// n+m. 模拟发送状态报告
-	if result == 0 {
+	// n+m. 模拟发送状态报告（仅当SP要求返回状态报告时）
+	if result == 0 && mt.NeedReport() == 1 {
 		rsp := resp.(*smgp.SubmitRsp)
 		mockSendSmgpReport(sc, mt, rsp.MsgId())
 	}
-- 
2.43.0


From a3aef6e27495215b1ec6e4eec3ecb19b8c9bf706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 61/67] fix: read a sequence generator's state under its lock
 in its accessors

---
 utils/cycle_sequence.go          | 2 ++
 utils/snowflake/snowflake.go     | 6 ++++++
 utils/snowflake32/snowflake32.go | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index de2581b..9fecf63 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -37,5 +37,7 @@ func (s *CycleSequence) NextVal() int32 {
 }
 
 func (s *CycleSequence) String() string {
+	s.Lock()
+	defer s.Unlock()
 	return fmt.Sprintf("%d:%d:%d", s.datacenter, s.worker, s.sequence)
 }
diff --git a/utils/snowflake/snowflake.go b/utils/snowflake/snowflake.go
index c3c59da..ebc0680 100644
--- a/utils/snowflake/snowflake.go
+++ b/utils/snowflake/snowflake.go
@@ -66,10 +66,14 @@ func (s *Snowflake) NextVal() int64 {
 }
 
 func (s *Snowflake) String() string {
+	s.Lock()
+	defer s.Unlock()
 	return fmt.Sprintf("%016x", ((s.timestamp-epoch)<<timestampShift)|(s.datacenterId<<datacenterShift)|(s.workerId<<workerShift)|(s.sequence))
 }
 
 func (s *Snowflake) Timestamp() int64 {
+	s.Lock()
+	defer s.Unlock()
 	return s.timestamp
 }
 
@@ -82,6 +86,8 @@ func (s *Snowflake) DatacenterId() int64 {
 }
 
 func (s *Snowflake) Sequence() int64 {
+	s.Lock()
+	defer s.Unlock()
 	return s.sequence
 }
 
diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 0f30dc3..78b0c93 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -67,10 +67,14 @@ func Parse(seq int32) *Snowflake {
 }
 
 func (s *Snowflake) String() string {
+	s.Lock()
+	defer s.Unlock()
 	return fmt.Sprintf("%08x", (s.seconds<<timestampShift)|(s.datacenter<<datacenterShift)|(s.worker<<workerShift)|(s.sequence))
 }
 
 func (s *Snowflake) Seconds() int32 {
+	s.Lock()
+	defer s.Unlock()
 	return s.seconds
 }
 
@@ -83,6 +87,8 @@ func (s *Snowflake) Worker() int32 {
 }
 
 func (s *Snowflake) Sequence() int32 {
+	s.Lock()
+	defer s.Unlock()
 	return s.sequence
 }
 
-- 
2.43.0


From 2867d7879c13839439e7204450888aeb483bfbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 62/67] fix: a send result is only accessed under its lock,
 queries and persistence get copies

---
 msc_client/api.go                     | 13 ++++++--
 msc_client/session/on_traffic_cmpp.go | 10 +++----
 msc_client/session/on_traffic_sgip.go |  7 ++---
 msc_client/session/on_traffic_smgp.go | 10 +++----
 msc_client/session/send_sms.go        | 43 +++++++++++++++++++++++++++
 msc_client/session_factory.go         |  4 +--
 6 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index d430146..bc1a9e4 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -46,17 +46,26 @@ func Query(queryId int64) []any {
 		if ok && len(result) > 0 {
 			_, ok := result[0].(*session.Result)
 			if ok {
-				return result
+				return snapshots(result)
 			}
 		}
 	}
 	return nil
 }
 
+// 调用方得到的是副本，响应和状态报告随时可能更新原数据
+func snapshots(results []any) []any {
+	copies := make([]any, 0, len(results))
+	for _, a := range results {
+		copies = append(copies, a.(*session.Result).Snapshot())
+	}
+	return copies
+}
+
 func saveQueryCache(key int64, value []any) {
 	for _, a := range value {
 		r := a.(*session.Result)
-		r.QueryId = key
+		r.SetQueryId(key)
 	}
 	resultQueryCacheMap.Store(key, value)
 }
diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index bfee834..de9ff49 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -89,11 +89,10 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
-			mtr.Result = sub.Result()
-			mtr.MsgId = utils.Uint64HexString(sub.MsgId())
-			mtr.ResponseTime = time.Now()
+			msgId := utils.Uint64HexString(sub.MsgId())
+			mtr.answered(sub.Result(), msgId)
 			// 已msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
+			MsgIdResultCacheMap.Store(msgId, mtr)
 		}
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
@@ -121,8 +120,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			val, ok := MsgIdResultCacheMap.Load(key)
 			if ok {
 				mtr := val.(*Result)
-				mtr.Report = rpt.Stat()
-				mtr.ReportTime = time.Now()
+				mtr.reported(rpt.Stat())
 			}
 		}
 	}
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 048aab9..fff4c59 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -74,11 +74,10 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
-			mtr.Result = uint32(sub.Status)
-			mtr.MsgId = sub.Sequence2String()
-			mtr.ResponseTime = time.Now()
+			msgId := sub.Sequence2String()
+			mtr.answered(uint32(sub.Status), msgId)
 			// 以msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
+			MsgIdResultCacheMap.Store(msgId, mtr)
 		}
 	}
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 627cd9c..f1a962d 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -89,11 +89,10 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
-			mtr.Result = uint32(sub.Status())
-			mtr.MsgId = hex.EncodeToString(sub.MsgId())
-			mtr.ResponseTime = time.Now()
+			msgId := hex.EncodeToString(sub.MsgId())
+			mtr.answered(uint32(sub.Status()), msgId)
 			// 已msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
+			MsgIdResultCacheMap.Store(msgId, mtr)
 		}
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
@@ -121,8 +120,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			val, ok := MsgIdResultCacheMap.Load(key)
 			if ok {
 				mtr := val.(*Result)
-				mtr.Report = rpt.Stat()
-				mtr.ReportTime = time.Now()
+				mtr.reported(rpt.Stat())
 			}
 		}
 	}
diff --git a/msc_client/session/send_sms.go b/msc_client/session/send_sms.go
index 2b72355..35afb7a 100644
--- a/msc_client/session/send_sms.go
+++ b/msc_client/session/send_sms.go
@@ -8,6 +8,8 @@ import (
 )
 
 type Result struct {
+	lock sync.Mutex // 响应、状态报告与查询在不同的 goroutine 中
+
 	QueryId      int64     `json:"QueryId"`      // 给客户端用的查询编号
 	Phone        string    `json:"phone"`        // 手机号
 	SequenceId   uint64    `json:"sequenceId"`   // 消息发送的标识
@@ -19,6 +21,47 @@ type Result struct {
 	ReportTime   time.Time `json:"reportTime"`   // 状态报告时间
 }
 
+// Snapshot 返回当前结果的副本
+func (r *Result) Snapshot() *Result {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	return &Result{
+		QueryId:      r.QueryId,
+		Phone:        r.Phone,
+		SequenceId:   r.SequenceId,
+		Result:       r.Result,
+		MsgId:        r.MsgId,
+		Report:       r.Report,
+		SendTime:     r.SendTime,
+		ResponseTime: r.ResponseTime,
+		ReportTime:   r.ReportTime,
+	}
+}
+
+// SetQueryId 记录查询编号
+func (r *Result) SetQueryId(id int64) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.QueryId = id
+}
+
+// 记录网关响应
+func (r *Result) answered(code uint32, msgId string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.Result = code
+	r.MsgId = msgId
+	r.ResponseTime = time.Now()
+}
+
+// 记录状态报告
+func (r *Result) reported(stat string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.Report = stat
+	r.ReportTime = time.Now()
+}
+
 // SequenceIdResultCacheMap 临时存储短信发送的返回结果数据，Key为requestId,value为*Result，后续采用数据库存储
 var SequenceIdResultCacheMap sync.Map
 
diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 1d2599f..dd5de23 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -222,7 +222,7 @@ func cleanQueryCacheMap(asyncHandler func([]any)) {
 			r0 := results[0].(*session.Result)
 			if r0.SendTime.Add(d).Before(time.Now()) {
 				expired = append(expired, id)
-				batch = append(batch, results...)
+				batch = append(batch, snapshots(results)...)
 			}
 		}
 		// 如果过期处理器不为空，异步处理结果数据
@@ -270,7 +270,7 @@ func cleanMsgIdCacheMap() {
 		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.MsgId)
+			expiredKeys = append(expiredKeys, key.(string))
 		}
 		return true
 	})
-- 
2.43.0


From 5bba4aa18f81c05238018bb421bd7266df0de24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 63/67] fix: connecting, logging in and sending end in bounded
 time

---
 msc_client/session/on_traffic_cmpp.go |  8 ++++----
 msc_client/session/on_traffic_sgip.go |  4 ++--
 msc_client/session/on_traffic_smgp.go |  8 ++++----
 msc_client/session/session.go         | 17 +++++++++++++++--
 msc_client/session_factory.go         |  7 +++++--
 5 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index de9ff49..3e488d9 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -22,7 +22,7 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 		// 先登记再发送，否则响应可能先于登记到达
 		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 
-		_, err := s.con.Write(mt.Encode())
+		_, err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
@@ -54,7 +54,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		_ = act.Decode(seq, buff)
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
-		_, err := s.con.Write(resp.Encode())
+		_, err := s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
@@ -69,7 +69,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_, _ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case cmpp.CMPP_TERMINATE_RESP:
@@ -104,7 +104,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			return
 		}
 		resp := dly.ToResponse(0)
-		_, err = s.con.Write(resp.Encode())
+		_, err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index fff4c59..aa68400 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -21,7 +21,7 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 		// 先登记再发送，否则响应可能先于登记到达
 		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 
-		_, err := s.con.Write(mt.Encode())
+		_, err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
@@ -54,7 +54,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_, _ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index f1a962d..18dae2d 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -22,7 +22,7 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 		// 先登记再发送，否则响应可能先于登记到达
 		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 
-		_, err := s.con.Write(mt.Encode())
+		_, err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
@@ -54,7 +54,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		_ = act.Decode(seq, buff)
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
-		_, err := s.con.Write(resp.Encode())
+		_, err := s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
@@ -69,7 +69,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_, _ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case smgp.SMGP_EXIT_RESP:
@@ -104,7 +104,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			return
 		}
 		resp := dly.ToResponse(0)
-		_, err = s.con.Write(resp.Encode())
+		_, err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 59986a7..afa3a56 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -39,6 +39,9 @@ const (
 	StatLogin
 	StatClosing
 
+	// ioTimeout 发送报文和等待登录响应的最长时间
+	ioTimeout = 10 * time.Second
+
 	CMPP = "cmpp"
 	SGIP = "sgip"
 	SMGP = "smgp"
@@ -201,12 +204,14 @@ func (s *Session) login() error {
 		}
 	}
 
-	_, err := s.con.Write(pdu.Encode())
+	_, err := s.write(pdu.Encode())
 	if err != nil {
 		return err
 	}
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
+	// 网关不响应时不能一直等待
+	_ = s.con.SetReadDeadline(time.Now().Add(ioTimeout))
 	data := make([]byte, respLen)
 	n, err := io.ReadFull(s.con, data)
 	if err != nil {
@@ -217,6 +222,7 @@ func (s *Session) login() error {
 	if pkl != uint32(n) {
 		return errors.New(fmt.Sprintf("[%s] Packet length error: expect %d, got %d", s.serverName, n, pkl))
 	}
+	_ = s.con.SetReadDeadline(time.Time{})
 	var cmd = binary.BigEndian.Uint32(data[4:8])
 	var seq = binary.BigEndian.Uint32(data[8:12])
 
@@ -287,12 +293,19 @@ func (s *Session) HealthCheck() bool {
 	if ok && idle {
 		err := s.ActiveTest()
 		if err != nil {
+			s.Close()
 			return false
 		}
 	}
 	return ok
 }
 
+// 发送报文，对端不接收数据时不会一直阻塞
+func (s *Session) write(pack []byte) (int, error) {
+	_ = s.con.SetWriteDeadline(time.Now().Add(ioTimeout))
+	return s.con.Write(pack)
+}
+
 func (s *Session) ActiveTest() error {
 	msg := fmt.Sprintf("[%s] ActiveTest", s.serverName)
 	var active codec.RequestPdu
@@ -308,7 +321,7 @@ func (s *Session) ActiveTest() error {
 		return nil
 	}
 	pack := active.Encode()
-	_, err := s.con.Write(pack)
+	_, err := s.write(pack)
 	if err == nil {
 		log.Info(msg, active.Log()...)
 	} else {
diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index dd5de23..f5b7e59 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -28,6 +28,9 @@ var resultQueryCacheMap sync.Map
 
 var mu sync.Mutex
 
+// dialTimeout 建立连接的最长时间
+const dialTimeout = 5 * time.Second
+
 func AsyncPool() *goroutine.Pool {
 	return pool
 }
@@ -114,7 +117,7 @@ func createSessionFactory(isp string) *SessionFactory {
 	}
 
 	// 立即初始化一个连接
-	c, err := net.Dial("tcp", address)
+	c, err := net.DialTimeout("tcp", address, dialTimeout)
 	if err == nil {
 		sc := session.NewSession(isp, ac, c)
 		if sc != nil {
@@ -354,7 +357,7 @@ func (f *SessionFactory) Swap(i, j int) {
 
 func (f *SessionFactory) newConnect() {
 	// 立即初始化一个连接
-	c, err := net.Dial("tcp", f.serverAddr)
+	c, err := net.DialTimeout("tcp", f.serverAddr, dialTimeout)
 	if err == nil {
 		sc := session.NewSession(f.srvName, f.authConf, c)
 		if sc != nil {
-- 
2.43.0


From 39feecff372eb7d567e12046d8312f6d8fa077f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 64/67] fix: the client does not log or answer a frame it
 cannot decode

---
 msc_client/session/on_traffic_cmpp.go | 38 ++++++++++++++++++---------
 msc_client/session/on_traffic_sgip.go | 23 +++++++++++-----
 msc_client/session/on_traffic_smgp.go | 38 ++++++++++++++++++---------
 msc_client/session/session.go         |  6 +++++
 4 files changed, 74 insertions(+), 31 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 3e488d9..8030fe0 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -44,14 +44,21 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_CONNECT_RESP:
 		resp := &cmpp.ConnectResp{Version: cmpp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
+		if err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != cmpp.ConnStatusOK {
-			log.Errorf("%s login refused, error: %v", receive, err)
+		if resp.Status() != cmpp.ConnStatusOK {
+			log.Errorf("%s login refused", receive)
 			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
 		act := &cmpp.ActiveTest{}
-		_ = act.Decode(seq, buff)
+		if err := act.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
 		_, err := s.write(resp.Encode())
@@ -62,11 +69,17 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		}
 	case cmpp.CMPP_ACTIVE_TEST_RESP:
 		act := &cmpp.ActiveTestRsp{}
-		_ = act.Decode(seq, buff)
+		if err := act.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, act.Log()...)
 	case cmpp.CMPP_TERMINATE:
 		term := &cmpp.Terminate{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.write(resp.Encode())
@@ -74,18 +87,20 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case cmpp.CMPP_TERMINATE_RESP:
 		term := &cmpp.TerminateRsp{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, term.Log()...)
 		s.Close()
 	case cmpp.CMPP_SUBMIT_RESP:
 		sub := &cmpp.SubmitRsp{Version: cmpp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
-			log.Error(err.Error())
-			s.Close()
+			s.undecodable(err)
 			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
@@ -97,12 +112,11 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
-			log.Error(err.Error())
-			s.Close()
+			s.undecodable(err)
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index aa68400..e4de228 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -44,14 +44,21 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_BIND_RESP:
 		resp := &sgip.BindRsp{}
 		err := resp.Decode(seq, buff)
+		if err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status != sgip.Status(0) {
-			log.Errorf("%s login refused, error: %v", receive, err)
+		if resp.Status != sgip.Status(0) {
+			log.Errorf("%s login refused", receive)
 			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
 		term := &sgip.Unbind{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.write(resp.Encode())
@@ -59,18 +66,20 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
 		term := &sgip.UnbindRsp{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, term.Log()...)
 		s.Close()
 	case sgip.SGIP_SUBMIT_RESP:
 		sub := &sgip.SubmitRsp{}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
-			log.Error(err.Error())
-			s.Close()
+			s.undecodable(err)
 			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 18dae2d..bc2687b 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -44,14 +44,21 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_LOGIN_RESP:
 		resp := &smgp.LoginRsp{Version: smgp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
+		if err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != smgp.Status(0) {
-			log.Errorf("%s login refused, error: %v", receive, err)
+		if resp.Status() != smgp.Status(0) {
+			log.Errorf("%s login refused", receive)
 			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
 		act := &smgp.ActiveTest{}
-		_ = act.Decode(seq, buff)
+		if err := act.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
 		_, err := s.write(resp.Encode())
@@ -62,11 +69,17 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		}
 	case smgp.SMGP_ACTIVE_TEST_RESP:
 		act := &smgp.ActiveTestRsp{}
-		_ = act.Decode(seq, buff)
+		if err := act.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, act.Log()...)
 	case smgp.SMGP_EXIT:
 		term := &smgp.Exit{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.write(resp.Encode())
@@ -74,18 +87,20 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case smgp.SMGP_EXIT_RESP:
 		term := &smgp.ExitRsp{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			s.undecodable(err)
+			return
+		}
 		log.Info(receive, term.Log()...)
 		s.Close()
 	case smgp.SMGP_SUBMIT_RESP:
 		sub := &smgp.SubmitRsp{Version: smgp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
-			log.Error(err.Error())
-			s.Close()
+			s.undecodable(err)
 			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
@@ -97,12 +112,11 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
-			log.Error(err.Error())
-			s.Close()
+			s.undecodable(err)
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index afa3a56..74f4d80 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -179,6 +179,12 @@ func (s *Session) onTraffic(cmd, seq uint32, buff []byte) {
 	}
 }
 
+// 收到无法解析的报文时关闭会话，未解析完的消息不能再使用
+func (s *Session) undecodable(err error) {
+	log.Errorf("[%s] Decode packet error: %v. Session closing...", s.serverName, err)
+	s.Close()
+}
+
 func (s *Session) login() error {
 	var pdu codec.Pdu
 	var respLen = 27
-- 
2.43.0


From f6c9845da21af09148be11251a34e5dad3a4c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:45 +0000
Subject: [PATCH 65/67] fix: a signal is not lost before it is waited for nor
 sent to a closed channel

---
 msc_client/destory.go | 6 +++---
 msc_server/destory.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/msc_client/destory.go b/msc_client/destory.go
index 46036c8..e415c66 100644
--- a/msc_client/destory.go
+++ b/msc_client/destory.go
@@ -17,9 +17,9 @@ func init() {
 	go func() {
 		// 控制关闭 main goroutine
 		defer func() { statChan <- struct{}{} }()
-		// 接收信号
-		var c = make(chan os.Signal)
-		defer close(c)
+		// 接收信号，信号的投递不会等待接收方，因此需要缓冲
+		var c = make(chan os.Signal, 1)
+		defer signal.Stop(c)
 
 		// 监听可能的退出信号
 		signal.Notify(c, os.Interrupt, os.Kill, syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM)
diff --git a/msc_server/destory.go b/msc_server/destory.go
index 1e01017..b7dde78 100644
--- a/msc_server/destory.go
+++ b/msc_server/destory.go
@@ -16,9 +16,9 @@ func init() {
 	go func() {
 		// 控制关闭 main goroutine
 		defer func() { statChan <- struct{}{} }()
-		// 接收信号
-		var c = make(chan os.Signal)
-		defer close(c)
+		// 接收信号，信号的投递不会等待接收方，因此需要缓冲
+		var c = make(chan os.Signal, 1)
+		defer signal.Stop(c)
 
 		// 监听可能的退出信号
 		signal.Notify(c, os.Interrupt, os.Kill, syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM)
-- 
2.43.0


From f46ce202d9deb8aa8e9484c793c50ff5cc9510da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 66/67] fix: a failed reload of the account files keeps the
 accounts instead of ending the process

---
 auth/client_store.go |  1 +
 auth/yaml_store.go   | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/auth/client_store.go b/auth/client_store.go
index d853409..a07b4c2 100644
--- a/auth/client_store.go
+++ b/auth/client_store.go
@@ -27,6 +27,7 @@ type storage struct {
 	sync.Mutex
 	Cache  map[string]*Client
 	Config yaml_config.YmlConfig
+	loaded bool // 是否已成功加载过
 }
 
 // 客户端缓存的键，存入和查找均使用此键
diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index ad02dce..03b65c6 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -21,7 +21,8 @@ func (y *YamlStore) Load() {
 	dir = y.Config.BasePath() + dir
 	fs, err := ioutil.ReadDir(dir)
 	if err != nil {
-		log.Fatalf("Config file init error: %v", err)
+		y.unreadable(err)
+		return
 	}
 
 	cache := make(map[string]*Client)
@@ -43,7 +44,8 @@ func (y *YamlStore) Load() {
 		}
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
-			log.Fatalf("Config file init error: %v", err)
+			y.unreadable(err)
+			return
 		}
 
 		unmarshal(data, key, y, cache)
@@ -51,6 +53,18 @@ func (y *YamlStore) Load() {
 	y.Lock()
 	defer y.Unlock()
 	y.Cache = cache
+	y.loaded = true
+}
+
+// 初次加载失败时退出，刷新失败时继续使用原配置
+func (y *YamlStore) unreadable(err error) {
+	y.Lock()
+	loaded := y.loaded
+	y.Unlock()
+	if !loaded {
+		log.Fatalf("Config file init error: %v", err)
+	}
+	log.Errorf("Config file reload error: %v", err)
 }
 
 func (y *YamlStore) FindByCid(isp string, cid string) *Client {
-- 
2.43.0


From a822a59fad19f5d63eb08eebc844bedd139c51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:20 +0000
Subject: [PATCH 67/67] fix: a negative tick duration no longer ends the client
 with a panic

---
 msc_client/session_factory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index f5b7e59..5ac59b3 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -188,7 +188,7 @@ func (f *SessionFactory) sessionCount() int {
 func StartCacheExpireTicker(asyncHandler func([]any)) {
 	go func() {
 		d := ConfigYml.GetDuration("Cache.expire-check-duration")
-		if d == 0 {
+		if d <= 0 {
 			d = time.Second
 		}
 		ticker := time.NewTicker(d)
@@ -286,7 +286,7 @@ func cleanMsgIdCacheMap() {
 func (f *SessionFactory) startLruSortTicker() {
 	go func() {
 		d := ConfigYml.GetDuration(f.srvName + ".tick-duration")
-		if d == 0 {
+		if d <= 0 {
 			d = time.Second
 		}
 		ticker := time.NewTicker(d)
-- 
2.43.0

