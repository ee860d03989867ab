From 3bd813fcbda866530e37ff1d37cf35035b71ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 01/60] fix: tsm: a reply that nobody waits for no longer
 panics or reaches another transaction

---
 tsm/transactions.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..80afc02 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -21,6 +21,9 @@ type state struct {
 	state        int
 	requestTimer int
 	data         chan interface{}
+	// done is closed when the id is put back, data itself is never closed since
+	// senders may still be waiting on it
+	done chan struct{}
 }
 
 // TSM is the transaction state manager. It handles passing data to other
@@ -67,13 +70,22 @@ func New(size int) *TSM {
 func (t *TSM) Send(id int, b interface{}) error {
 	t.mutex.Lock()
 	s, ok := t.states[id]
+	var data chan interface{}
+	var done chan struct{}
+	if ok {
+		data, done = s.data, s.done
+	}
 	t.mutex.Unlock()
 
 	if !ok {
 		return fmt.Errorf("id %d is not receiving", id)
 	}
-	s.data <- b
-	return nil
+	select {
+	case data <- b:
+		return nil
+	case <-done:
+		return fmt.Errorf("id %d is no longer receiving", id)
+	}
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
@@ -81,6 +93,11 @@ func (t *TSM) Send(id int, b interface{}) error {
 func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 	t.mutex.Lock()
 	s, ok := t.states[id]
+	var data chan interface{}
+	var done chan struct{}
+	if ok {
+		data, done = s.data, s.done
+	}
 	t.mutex.Unlock()
 
 	if !ok {
@@ -92,8 +109,10 @@ func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 
 	// Wait for data
 	select {
-	case b := <-s.data:
+	case b := <-data:
 		return b, nil
+	case <-done:
+		return nil, fmt.Errorf("id %d is no longer sending", id)
 	case <-ctx.Done():
 		return nil, fmt.Errorf("receive timed out (%v)", timeout)
 	}
@@ -121,6 +140,7 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 	s.state = idle
 	s.requestTimer = 0 // TODO: apdu_timeout
 	s.data = make(chan interface{})
+	s.done = make(chan struct{})
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
@@ -138,7 +158,7 @@ func (t *TSM) Put(id int) error {
 		return fmt.Errorf("id %d does not exist in the transactions", id)
 	}
 
-	close(s.data)
+	close(s.done)
 	t.pool.Put(s)
 	t.free.id <- id
 	t.free.space <- struct{}{}
-- 
2.43.0


From 957aa621a0c5ebe65553cfcf6016f78c5deefd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 02/60] fix: utsm: publishing no longer deadlocks with a
 subscriber that is timing out

---
 utsm/subscriber.go |  2 ++
 utsm/utsm.go       | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..b8564f6 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -15,6 +15,8 @@ type subscriber struct {
 	lastReceived        time.Time
 	// Data channel is used for data transfer between subscriber and publisher
 	data  chan interface{}
+	// done is closed once the subscriber is removed
+	done  chan struct{}
 	mutex *sync.Mutex
 }
 
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..414c8f3 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -59,15 +59,24 @@ func DefaultSubscriberLastReceivedTimeout(timeout time.Duration) ManagerOption {
 }
 
 func (m *Manager) Publish(id int, data interface{}) {
+	// The locks are not held while waiting for a subscriber, it needs them to
+	// receive the data or to leave.
+	var subs []*subscriber
 	m.mutex.Lock()
-	defer m.mutex.Unlock()
-
 	for _, s := range m.subs {
 		if id >= s.start && id <= s.end {
-			s.mutex.Lock()
-			s.lastReceived = time.Now()
-			s.data <- data
-			s.mutex.Unlock()
+			subs = append(subs, s)
+		}
+	}
+	m.mutex.Unlock()
+
+	for _, s := range subs {
+		s.mutex.Lock()
+		s.lastReceived = time.Now()
+		s.mutex.Unlock()
+		select {
+		case s.data <- data:
+		case <-s.done:
 		}
 	}
 }
@@ -78,6 +87,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		end:          end,
 		lastReceived: time.Now(),
 		data:         make(chan interface{}, 1),
+		done:         make(chan struct{}),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
@@ -114,6 +124,7 @@ func (m *Manager) removeSubscriber(sub *subscriber) {
 
 			// Remove last value
 			m.subs = m.subs[:len(m.subs)-1]
+			close(sub.done)
 			return
 		}
 	}
-- 
2.43.0


From aeaf3d6ebfa2c42df909da6ba2b3e40d9382e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/60] fix: NewClient uses the data link it is given

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 9413d79..513de3a 100644
--- a/device.go
+++ b/device.go
@@ -77,7 +77,9 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		maxPDU = btypes.MaxAPDU
 	}
 	//build datalink
-	if iface != "" {
+	if cb.DataLink != nil {
+		dataLink = cb.DataLink
+	} else if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
 			//log.Fatal(err)
-- 
2.43.0


From 97d6edb86e2efb1c5ca7687fa9a5c2bfee6349fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 04/60] fix: NewClient passes subnet and port to the data link
 in the right order

---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 513de3a..ff903e8 100644
--- a/device.go
+++ b/device.go
@@ -91,7 +91,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From 9bbde1f2988e07d9471fd313a16ad4c1c4890972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/60] fix: forwarded NPDUs are read after their originating
 address and credited to it

---
 device.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index ff903e8..f40d9bc 100644
--- a/device.go
+++ b/device.go
@@ -144,6 +144,15 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The originating address is placed between the header and the NPDU
+			origin := make([]byte, forwardHeaderLength-mtuHeaderLength)
+			if n, err := dec.Read(origin); err != nil || n < len(origin) {
+				c.log.Error("Forwarded NPDU without an originating address")
+				return
+			}
+			src = &btypes.Address{Mac: origin, MacLen: uint8(len(origin))}
+		}
 		networkList, err := dec.NPDU(&npdu)
 		if err != nil {
 			return
@@ -232,14 +241,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From 36fa33e1517163c723a7d919147920e461d498b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 06/60] fix: network layer messages are not decoded as APDUs

---
 device.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index f40d9bc..c04333b 100644
--- a/device.go
+++ b/device.go
@@ -162,13 +162,12 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			c.log.Debug("Ignored Network Layer Message")
 			if npdu.NetworkLayerMessageType == ndpu.NetworkIs {
 				c.utsm.Publish(int(npdu.Source.Net), npdu)
-				//return
 			}
 			if npdu.NetworkLayerMessageType == ndpu.IamRouterToNetwork {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
-				//return
 			}
-
+			// There is no APDU in a network layer message
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
-- 
2.43.0


From b44a4d4a394efbb10f0ee33fd1dbcc01fa13f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 07/60] fix: a confirmed request from a peer does not complete
 our own request

---
 device.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index c04333b..c3ec55a 100644
--- a/device.go
+++ b/device.go
@@ -224,11 +224,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// The invoke id was chosen by the peer, this isn't a reply to any of our requests
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From bc4f4154cfb8e24fe99038eef06283f5d5d89617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 08/60] fix: frames that are not BACnet/IP are ignored

---
 device.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/device.go b/device.go
index c3ec55a..332a467 100644
--- a/device.go
+++ b/device.go
@@ -140,6 +140,10 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		c.log.Error(err)
 		return
 	}
+	if header.Type != btypes.BVLCTypeBacnetIP {
+		c.log.Debugf("Ignored packet of BVLC type %d", header.Type)
+		return
+	}
 
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
-- 
2.43.0


From d1494f28cdc956317e2defc0dd6dd70f2f333cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 09/60] fix: the receive buffer has room for the headers around
 a maximum size APDU

---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 332a467..12bb08d 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,9 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardHeaderLength = 10
 
+// maxHeaderLength is the room taken by the largest BVLC and NPDU headers in front of an APDU
+const maxHeaderLength = 36
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -109,7 +112,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			return make([]byte, int(maxPDU)+maxHeaderLength)
 		}},
 		log: l,
 	}
-- 
2.43.0


From 3fd69a090e3cebe82296048e91c46ad60c201d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 10/60] fix: ClientClose releases the data link when it also
 closes the log

---
 device.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 12bb08d..d19340f 100644
--- a/device.go
+++ b/device.go
@@ -291,7 +291,11 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 func (c *client) ClientClose(closeLogs bool) error {
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
-			return f.Close()
+			logErr := f.Close()
+			if err := c.Close(); err != nil {
+				return err
+			}
+			return logErr
 		}
 	}
 	return c.Close()
-- 
2.43.0


From 08f0424de93d7868bfe48ddcfc0a1e2cdc7a6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 11/60] fix: Who-Is on the local network is sent with the
 broadcast function

---
 whois.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index 95888b1..efd4b9a 100644
--- a/whois.go
+++ b/whois.go
@@ -59,8 +59,9 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	}
 	// Run in parallel
 	errChan := make(chan error)
+	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
+		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
 		errChan <- err
 	}()
 	values, err := c.utsm.Subscribe(start, end)
-- 
2.43.0


From e16d337ca2677c29c04fd17e3df86b58d55d7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/60] fix: write multiple and I-Am to routed devices carry
 the destination length

---
 iam.go        | 1 +
 writemulti.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/iam.go b/iam.go
index aa0a677..661ac64 100644
--- a/iam.go
+++ b/iam.go
@@ -10,6 +10,7 @@ not working
 */
 
 func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
+	dest.SetLength()
 	npdu := &btypes.NPDU{
 		Version:     btypes.ProtocolVersion,
 		Destination: &dest,
diff --git a/writemulti.go b/writemulti.go
index e65a189..d283e8d 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,6 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
+	dev.Addr.SetLength()
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
-- 
2.43.0


From 7bc40b87e877ef706a10a624356653313be63397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 13/60] fix: the destination length matches hardware addresses
 longer than one byte

---
 btypes/address.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..ec49799 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,11 +24,9 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength sets the address len to the length of the hardware address (1 if device is of type ms-tp)
 func (a *Address) SetLength() {
-	if len(a.Adr) > 0 {
-		a.Len = 1
-	}
+	a.Len = uint8(len(a.Adr))
 	return
 }
 
-- 
2.43.0


From 0a53a20603d5ad4bd2e038e52e89e4bfc359b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 14/60] fix: error class and code are read from the error PDU's
 values, not from its tags

---
 encoding/apdu.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..0bf90eb 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -112,7 +112,7 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
 	d.decode(&a.Service)
 
-	_, meta := d.tagNumber()
+	_, meta, value := d.tagNumberAndValue()
 	if meta.isOpening() {
 		_, _, value := d.tagNumberAndValue()
 		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(value)))
@@ -123,16 +123,9 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
-
+		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(value)))
+		_, _, value = d.tagNumberAndValue()
+		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
 	}
 	return nil
 }
-- 
2.43.0


From d72480ca12ffddfad261fccc8de1df46817cd59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 15/60] fix: I-Am-Router-To-Network is decoded for any number
 of networks

---
 encoding/npdu.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..21b3b2c 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -114,17 +114,18 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 		if n.NetworkLayerMessageType == ndpu.IamRouterToNetwork { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
 			n.Source = &btypes.Address{}
 			var nets []btypes.Address
-			d.decode(&n.Source.Net) //decode the first network
-			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
-				d.decode(&n.Source.Net)
-				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
-					}
+			added := make(map[uint16]bool)
+			for d.len() > 0 && d.err == nil {
+				var net uint16
+				d.decode(&net)
+				if d.err == nil && !added[net] { //make sure that a network is only added once
+					added[net] = true
+					nets = append(nets, btypes.Address{Net: net})
 				}
 			}
+			if len(nets) > 0 {
+				*n.Source = nets[0]
+			}
 			addr = nets
 		}
 	}
-- 
2.43.0


From 81973b8cdd97e708cca274b04c69cd89720ff146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 16/60] fix: the vendor id of network message type 0x80 is
 decoded

---
 encoding/npdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index 21b3b2c..5260ca1 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -104,7 +104,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
-- 
2.43.0


From f9b897bf5484e4cab64d29dc21f69695f6700303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 17/60] fix: doubles are tagged with their length of 8 bytes

---
 encoding/appdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..e71395e 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -93,7 +93,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
-- 
2.43.0


From cd2ed718a0867f165a424a3179baca0d80849b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 18/60] fix: signed integers keep their sign in every length

---
 encoding/appdata.go |  5 ++---
 encoding/decoder.go |  5 +++--
 encoding/encoder.go | 13 +++++++++++++
 encoding/general.go | 12 ++++++++++++
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index e71395e..1add95f 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -106,10 +106,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val, length)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..16c05b6 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -149,13 +149,14 @@ func (d *Decoder) unsigned(length int) uint32 {
 }
 
 func (d *Decoder) signed24() int32 {
-	var a, b, c int8
+	var a int8
+	var b, c uint8
 	d.decode(&a)
 	d.decode(&b)
 	d.decode(&c)
 
 	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
+	x = int32(a) << 16
 	x |= int32((int32(b) << 8) & 0x0000ff00)
 	x |= int32(int32(c) & 0x000000ff)
 	return x
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..bd16ed7 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,19 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+func (e *Encoder) signed(value int32, length int) {
+	switch length {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..2e58a99 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,18 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength is valueLength for two's complement values
+func signedLength(value int32) int {
+	if value >= -0x80 && value < 0x80 {
+		return size8
+	} else if value >= -0x8000 && value < 0x8000 {
+		return size16
+	} else if value >= -0x800000 && value < 0x800000 {
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
-- 
2.43.0


From 47eb7fd65362a151fcb4ea2b28c3d2adcaf86e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 19/60] fix: writing a value of another type to a binary point
 is an error, not a panic

---
 encoding/appdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 1add95f..0f166fa 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
-- 
2.43.0


From 0002a3f03d1afac71f0b3e714fe9fd0464ed6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 20/60] fix: lengths found in received data are checked before
 memory is allocated or indexed

---
 encoding/date.go    | 12 ++++++++----
 encoding/decoder.go | 18 ++++++++++++++++--
 encoding/string.go  |  6 ++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..82791ea 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -46,11 +46,11 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 	if length <= 0 {
 		return
 	}
-	data := make([]byte, length)
-	_, d.err = d.Read(data)
-	if d.err != nil {
+	if !d.checkLength(length) {
 		return
 	}
+	data := make([]byte, length)
+	d.decode(data)
 	if len(data) < 4 {
 		return
 	}
@@ -78,8 +78,12 @@ func (d *Decoder) time(t *btypes.Time, length int) {
 	if length <= 0 {
 		return
 	}
+	if !d.checkLength(length) {
+		return
+	}
 	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	d.decode(data)
+	if len(data) < 4 {
 		return
 	}
 
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 16c05b6..a338107 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -39,10 +40,23 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	if d.err != nil {
+		return d.err
+	}
+	if d.checkLength(int(n)) {
+		d.buff.Next(int(n))
+	}
 	return d.err
 }
 
+// checkLength sets the error if less than n bytes are left to decode
+func (d *Decoder) checkLength(n int) bool {
+	if d.err == nil && (n < 0 || n > d.len()) {
+		d.err = fmt.Errorf("invalid length %d, %d bytes left", n, d.len())
+	}
+	return d.err == nil
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -184,7 +198,7 @@ func (d *Decoder) signed(length int) int32 {
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	if length <= 0 || !d.checkLength(length) {
 		return nil
 	}
 	data := make([]uint8, length)
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..cb32cd3 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -38,6 +38,9 @@ func (d *Decoder) string(s *string, len int) error {
 	default:
 		return fmt.Errorf("unsupported string format %d", t)
 	}
+	if !d.checkLength(len) {
+		return d.err
+	}
 	b := make([]byte, len)
 	d.decode(b)
 
@@ -58,6 +61,9 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
+	if !d.checkLength(len) {
+		return
+	}
 	*b = make([]byte, len)
 	d.decode(b)
 }
-- 
2.43.0


From 7cdbada69933c5c95e98027f56418cd619711f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 21/60] fix: an unspecified year is decoded as unspecified

---
 encoding/date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/date.go b/encoding/date.go
index 82791ea..ad6724d 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -55,7 +55,7 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != notDefined {
 		dt.Year = int(data[0]) + epochYear
 	} else {
 		dt.Year = int(data[0])
-- 
2.43.0


From 05a236cc22543555808d33d0fb56ffe09dafdf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 22/60] fix: integers of an unsupported length are an error
 instead of 0 followed by their own bytes

---
 encoding/decoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index a338107..4bf722b 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -158,10 +158,18 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
-		return 0
+		return d.unsupportedLength(length)
 	}
 }
 
+// unsupportedLength sets the error for an integer that isn't 1 to 4 bytes long
+func (d *Decoder) unsupportedLength(length int) uint32 {
+	if d.err == nil {
+		d.err = fmt.Errorf("unsupported integer length %d", length)
+	}
+	return 0
+}
+
 func (d *Decoder) signed24() int32 {
 	var a int8
 	var b, c uint8
@@ -193,7 +201,7 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
-		return 0
+		return int32(d.unsupportedLength(length))
 	}
 }
 
-- 
2.43.0


From 3506c0e5a1e0ef54ea03a5c1609e40d2b3c71adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 23/60] fix: an empty bit string with unused bits does not
 underflow

---
 btypes/bitstring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..f69b203 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -91,6 +91,9 @@ func (bs *BitString) SetByte(index uint8, value byte) bool {
 
 func (bs *BitString) SetBitsUsed(byteUsed uint8, bitsUnused uint8) bool {
 	if bs != nil {
+		if byteUsed == 0 {
+			bitsUnused = 0
+		}
 		bs.BitUsed = byteUsed*8 - bitsUnused
 		return true
 	}
-- 
2.43.0


From 3d7e87430dd3800e1d92a12f44f3b00c3496deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 24/60] fix: read multiple acks with nested or unbalanced tags
 end, and objects are returned once

---
 encoding/readmultipleack.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..4dda403 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -150,19 +150,33 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			// Tag 4 - Opening Tag
 			if tag == 4 && meta.isOpening() {
 				var array []interface{}
+				// number of tags that were opened inside of the value
+				depth := 0
 				tag, meta = d.tagNumber()
 				if d.err != nil {
 					return d.err
 				}
 				for {
+					if d.err != nil {
+						return d.err
+					}
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							_ = d.UnreadByte()
+							if depth == 0 {
+								if tag != 4 {
+									return &ErrorIncorrectTag{Expected: 4, Given: tag}
+								}
+								break
+							}
+							depth--
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
 								for {
 									tag, meta, length = d.tagNumberAndValue()
+									if d.err != nil {
+										return d.err
+									}
 									if meta.isClosing() && tag == btypes.TimeStampDatetime {
 										break
 									} else if tag == tagDate {
@@ -174,12 +188,11 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 									}
 								}
 								array = append(array, dt)
+							} else {
+								depth++
 							}
 						} else {
 							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
 							lenValue := d.value(meta)
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
@@ -205,12 +218,6 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						array = append(array, data)
 					}
 					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
-- 
2.43.0


From 0ed381f88ee9ade24629f581d3c34c55eea9e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 25/60] fix: context tagged values of unknown type are skipped
 whole in read multiple acks

---
 encoding/context_tag.go     | 6 ++----
 encoding/readmultipleack.go | 9 +++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..ac7a758 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -5,11 +5,9 @@ import "github.com/NubeDev/bacnet/btypes"
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
 /* returns the fixed tag type for certain context tagged properties */
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+	tag := maxTag
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL, btypes.PROP_REQUESTED_SHED_LEVEL, btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 4dda403..3eb092b 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -197,11 +197,12 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
 								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
+								if err := d.Skip(lenValue); err != nil {
+									return err
 								}
+							} else if tag == tagBool {
+								// the value follows the tag, unlike in application data
+								array = append(array, d.unsigned(int(lenValue)) > 0)
 							} else {
 								data, err := d.AppDataOfTag(tag, int(lenValue))
 								if err != nil {
-- 
2.43.0


From efea9cd3627288f99f5d55663c330f67dd6b8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 26/60] fix: the value of a read property ack is closed with
 the tag that opened it

---
 encoding/readprop.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..c7297f0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -69,7 +69,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
-- 
2.43.0


From 6624ff4fd2f4a64bf0bf778bf67d870affac4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 27/60] fix: the values of a read multiple ack are encoded as
 application data, once

---
 encoding/readmultipleack.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 3eb092b..a724a30 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.AppData(prop.Data, false)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
-- 
2.43.0


From 3dafc0871b0e39807381a82e488d9d8d7a5740c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 28/60] fix: the priority of a write multiple request has
 context tag 3

---
 encoding/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index bd16ed7..caba4bf 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -205,6 +205,8 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			e.AppData(prop.Data, false)
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
+			tag = 3
 			if prop.Priority != btypes.Normal {
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
-- 
2.43.0


From b29b0a91dd9801527aca7f6a142c097fa5f3050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 29/60] fix: requests for objects that cannot be encoded are
 refused instead of sent malformed

---
 encoding/encoder.go  |  7 +++++++
 encoding/readprop.go |  9 ++++-----
 encoding/validate.go | 26 ++++++++++++++++++++++++++
 writemulti.go        |  6 +++---
 writeprop.go         |  6 +++---
 5 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index caba4bf..0e651f8 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -171,7 +172,13 @@ func (e *Encoder) signed(value int32, length int) {
 
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
+	if len(objects) == 0 {
+		return fmt.Errorf("there are no objects")
+	}
 	for _, obj := range objects {
+		if err := isValidObject(&obj); err != nil {
+			return err
+		}
 		tag = 0
 		e.contextObjectID(tag, obj.ID.Type, obj.ID.Instance)
 		// Tag 1 - Opening Tag
diff --git a/encoding/readprop.go b/encoding/readprop.go
index c7297f0..d045944 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,10 +8,7 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
-	if err := isValidObjectType(data.Object.ID.Type); err != nil {
-		return 0, err
-	}
-	if err := isValidPropertyType(uint32(data.Object.Properties[0].Type)); err != nil {
+	if err := isValidObject(&data.Object); err != nil {
 		return 0, err
 	}
 
@@ -44,7 +41,9 @@ func (e *Encoder) ReadProperty(invokeID uint8, data btypes.PropertyData) error {
 		SegmentedMessage: false,
 	}
 	e.APDU(a)
-	e.readPropertyHeader(initialTagPos, &data)
+	if _, err := e.readPropertyHeader(initialTagPos, &data); err != nil {
+		return err
+	}
 	return e.Error()
 }
 
diff --git a/encoding/validate.go b/encoding/validate.go
index dad8923..2321e26 100644
--- a/encoding/validate.go
+++ b/encoding/validate.go
@@ -13,6 +13,32 @@ func isValidObjectType(idType btypes.ObjectType) error {
 	return nil
 }
 
+func isValidInstance(instance btypes.ObjectInstance) error {
+	if instance > MaxInstance {
+		return fmt.Errorf("Object instance is %d which must not be more than %d", instance, MaxInstance)
+	}
+	return nil
+}
+
+// isValidObject checks that the object and all of its properties can be encoded
+func isValidObject(object *btypes.Object) error {
+	if err := isValidObjectType(object.ID.Type); err != nil {
+		return err
+	}
+	if err := isValidInstance(object.ID.Instance); err != nil {
+		return err
+	}
+	if len(object.Properties) == 0 {
+		return fmt.Errorf("object %v has no properties", object.ID)
+	}
+	for _, prop := range object.Properties {
+		if err := isValidPropertyType(uint32(prop.Type)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func isValidPropertyType(propType uint32) error {
 	if propType > MaxPropertyID {
 		return fmt.Errorf("Object btypes is %d which must be less then %d", propType, MaxPropertyID)
diff --git a/writemulti.go b/writemulti.go
index d283e8d..fc6e6cd 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -31,9 +31,9 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
 
-	enc.WriteMultiProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteMultiProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 
 	pack := enc.Bytes()
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..e262b0a 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -28,9 +28,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.WriteProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 	// the value filled doesn't matter. it just needs to be non nil
 	err = fmt.Errorf("go")
-- 
2.43.0


From c2ac710424aafa17818d2b2fa7ecd29b34d62cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 30/60] fix: an I-Am with missing or mistyped fields is an
 error, not a device with instance 0

---
 encoding/iam.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..e781e22 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -24,20 +25,23 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 	if err != nil {
 		return err
 	}
-	if i, ok := objID.(btypes.ObjectID); ok {
-		id.ID = i
+	var ok bool
+	if id.ID, ok = objID.(btypes.ObjectID); !ok {
+		return fmt.Errorf("expected an object id in I-Am, got %T", objID)
 	}
 	maxapdu, _ := d.AppData()
-	if m, ok := maxapdu.(uint32); ok {
-		id.MaxApdu = m
+	if id.MaxApdu, ok = maxapdu.(uint32); !ok {
+		return fmt.Errorf("expected the max APDU in I-Am, got %T", maxapdu)
 	}
 	segmentation, _ := d.AppData()
-	if m, ok := segmentation.(uint32); ok {
-		id.Segmentation = btypes.Enumerated(m)
+	m, ok := segmentation.(uint32)
+	if !ok {
+		return fmt.Errorf("expected the segmentation in I-Am, got %T", segmentation)
 	}
-	vendor, err := d.AppData()
-	if v, ok := vendor.(uint32); ok {
-		id.Vendor = v
+	id.Segmentation = btypes.Enumerated(m)
+	vendor, _ := d.AppData()
+	if id.Vendor, ok = vendor.(uint32); !ok {
+		return fmt.Errorf("expected the vendor in I-Am, got %T", vendor)
 	}
 	return d.Error()
 }
-- 
2.43.0


From d3125aebdf0ab4101f0542f2c4a7663375ffbfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 31/60] fix: only an acknowledgement of the requested service
 completes a request

---
 device.go     | 8 ++++++++
 readmulti.go  | 3 +++
 readprop.go   | 3 +++
 writemulti.go | 2 +-
 writeprop.go  | 3 +++
 5 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index d19340f..93f0007 100644
--- a/device.go
+++ b/device.go
@@ -288,6 +288,14 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 	return c.dataLink.Send(e.Bytes(), npdu, &dest)
 }
 
+// checkAck makes sure that the reply acknowledges the service that was requested
+func checkAck(apdu *btypes.APDU, dataType btypes.PDUType, service btypes.ServiceConfirmed) error {
+	if apdu.DataType != dataType || apdu.Service != service {
+		return fmt.Errorf("received unexpected reply, type: %#x, service: %d", uint8(apdu.DataType), apdu.Service)
+	}
+	return nil
+}
+
 func (c *client) ClientClose(closeLogs bool) error {
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
diff --git a/readmulti.go b/readmulti.go
index 67377e1..ad5547b 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -98,6 +98,9 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 		return out, err
 	}
+	if err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadPropMultiple); err != nil {
+		return out, err
+	}
 	err = dec.ReadMultiplePropertyAck(&out)
 	if err != nil {
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
diff --git a/readprop.go b/readprop.go
index 73f1b57..decfe69 100644
--- a/readprop.go
+++ b/readprop.go
@@ -68,6 +68,9 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadProperty); err != nil {
+			continue
+		}
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
diff --git a/writemulti.go b/writemulti.go
index fc6e6cd..1ce6ec8 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -83,5 +83,5 @@ func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btyp
 	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 		return fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 	}
-	return nil
+	return checkAck(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWritePropMultiple)
 }
diff --git a/writeprop.go b/writeprop.go
index e262b0a..836987a 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -66,6 +66,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if err = checkAck(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWriteProperty); err != nil {
+			continue
+		}
 
 		return err
 	}
-- 
2.43.0


From aea3c62de65aced733d00123611dc9af70bacdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 32/60] fix: Objects returns an error when the device's answers
 do not match the questions

---
 objectlist.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..3831dfa 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -57,6 +57,10 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 		return nil, fmt.Errorf("no data was returned")
 	}
 
+	if len(resp.Objects[0].Properties) != end-start+1 {
+		return nil, fmt.Errorf("expected %d objects, got %d", end-start+1, len(resp.Objects[0].Properties))
+	}
+
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
 
 	for i, prop := range resp.Objects[0].Properties {
@@ -91,7 +95,7 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
-	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	scanSize := max(int(dev.MaxApdu)/readPropRequestSize, 1)
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
@@ -146,13 +150,24 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		// There are only proprietary objects
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("expected %d objects, got %d", counter, len(resp.Objects))
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
+		if r.ID != keys[i] || len(r.Properties) != 2 ||
+			r.Properties[0].Type != btypes.PropObjectName || r.Properties[1].Type != btypes.PropDescription {
+			return fmt.Errorf("expected name and description of %v, got %v", keys[i], r)
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
-- 
2.43.0


From e0741d564d400bdaff5779b1e8ffe3e1470d0841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 33/60] fix: Objects works with the smallest max APDU of 50

---
 objectlist.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 3831dfa..4cf644c 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -76,6 +76,11 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 
 const readPropRequestSize = 20
 
+// objectInfoRequestSize is taken by each object when its name and description are
+// requested, next to objectInfoHeaderSize for the headers
+const objectInfoRequestSize = 11
+const objectInfoHeaderSize = 24
+
 func objectCopy(dest btypes.ObjectMap, src []btypes.Object) {
 	for _, o := range src {
 		if dest[o.ID.Type] == nil {
@@ -186,7 +191,7 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 
 func (c *client) allObjectInformation(dev *btypes.Device) error {
 	objs := dev.ObjectSlice()
-	incrSize := 5
+	incrSize := min(5, max((int(dev.MaxApdu)-objectInfoHeaderSize)/objectInfoRequestSize, 1))
 
 	var err error
 	for i := 0; i < len(objs); i += incrSize {
-- 
2.43.0


From 9858f58b35a3a1242d1c5b289977f5e83f34d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 34/60] fix: an IPv6 datagram no longer crashes the receiver

---
 datalink/udp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..e7e28b7 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -73,7 +73,7 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 	}
 
 	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
-	conn, err := net.ListenUDP("udp", udp)
+	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 58a18db5732f973d264f967cb99d03e3a1fd523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 35/60] fix: opening a data link on an IPv6 address is an
 error, not a panic

---
 datalink/udp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datalink/udp.go b/datalink/udp.go
index e7e28b7..f87ad64 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,6 +67,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if ip.To4() == nil {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
-- 
2.43.0


From c47f8195793c3b9cb5071c8f6e270433f168842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 36/60] fix: object maps keep unnamed object types when they
 are read from JSON

---
 btypes/object.go     | 12 ++++++++++++
 btypes/object_map.go | 16 +++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/btypes/object.go b/btypes/object.go
index 8a02bbd..6f5067c 100644
--- a/btypes/object.go
+++ b/btypes/object.go
@@ -97,6 +97,18 @@ func GetType(s string) ObjectType {
 	return t
 }
 
+// parseType is the inverse of ObjectType.String
+func parseType(s string) (ObjectType, error) {
+	t, ok := objStrTypeMap[s]
+	if ok {
+		return t, nil
+	}
+	if _, err := fmt.Sscanf(s, "Unknown (%d)", &t); err != nil {
+		return 0, fmt.Errorf("unknown object type %q", s)
+	}
+	return t, nil
+}
+
 func (t ObjectType) String() string {
 	s, ok := objTypeMap[t]
 	if !ok {
diff --git a/btypes/object_map.go b/btypes/object_map.go
index f87c5b0..440461d 100644
--- a/btypes/object_map.go
+++ b/btypes/object_map.go
@@ -30,20 +30,26 @@ func (om ObjectMap) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m)
 }
 
-func (om ObjectMap) UnmarshalJSON(data []byte) error {
+func (om *ObjectMap) UnmarshalJSON(data []byte) error {
 	m := make(map[string]map[ObjectInstance]Object, 0)
 	err := json.Unmarshal(data, &m)
 	if err != nil {
 		return err
 	}
 
+	if *om == nil {
+		*om = make(ObjectMap)
+	}
 	for t, sub := range m {
-		key := GetType(t)
-		if om[key] == nil {
-			om[key] = make(map[ObjectInstance]Object)
+		key, err := parseType(t)
+		if err != nil {
+			return err
+		}
+		if (*om)[key] == nil {
+			(*om)[key] = make(map[ObjectInstance]Object)
 		}
 		for inst, obj := range sub {
-			om[key][inst] = obj
+			(*om)[key][inst] = obj
 		}
 	}
 	return nil
-- 
2.43.0


From 81eaf37fa2085a883ee629d9baaa6a2af69ba42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 37/60] fix: priority arrays of analogue points can be read

---
 btypes/priority/priority.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..b2f4612 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -15,13 +15,16 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 		typeOf := reflect.TypeOf(value)
 		if typeOf.Name() != "Null" {
 			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
+				f, _ := value.(uint32)
 				flt := float32(f)
 				returnValue = nils.NewFloat32(flt)
 			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
+				switch f := value.(type) {
+				case float32:
+					returnValue = nils.NewFloat32(f)
+				case uint32:
+					returnValue = nils.NewFloat32(float32(f))
+				}
 			}
 		}
 		switch i {
-- 
2.43.0


From 0720a380d02088010f83cd39834dfd049771b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 38/60] fix: a network without a store gets its own instead of
 a nil pointer panic

---
 network/base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network/base.go b/network/base.go
index ffd4269..8ad7a74 100644
--- a/network/base.go
+++ b/network/base.go
@@ -29,6 +29,9 @@ func New(net *Network) (*Network, error) {
 		return nil, err
 	}
 	net.bacnet = bc
+	if net.Store == nil {
+		net.Store = NewStore()
+	}
 	if net.Store.BacStore != nil {
 		net.Store.BacStore.Set(net.StoreID, net, -1)
 	} else {
-- 
2.43.0


From 78d4fb6d380feccf7756541ebbd51b21303b2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 39/60] fix: networks created by the store know their store, so
 that devices can be added to them

---
 network/store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/store.go b/network/store.go
index 426ff77..3b92b2e 100644
--- a/network/store.go
+++ b/network/store.go
@@ -34,9 +34,13 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		bacnet:     bc,
+		Store:      store,
 	}
 	if store.BacStore != nil {
 		store.BacStore.Set(storeID, bacnetNet, -1)
-- 
2.43.0


From 3a1e05456a99c673be435e94cc7f7662d77483c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 40/60] fix: looking up the wrong kind of entry in the store is
 an error, not a panic

---
 network/store.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/store.go b/network/store.go
index 3b92b2e..fbed0c5 100644
--- a/network/store.go
+++ b/network/store.go
@@ -55,7 +55,10 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
+	parse, ok := cli.(*Network)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: %s is not a network", uuid))
+	}
 	return parse, nil
 }
 
@@ -91,6 +94,9 @@ func (store *Store) GetDevice(uuid string) (*Device, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
+	parse, ok := cli.(*Device)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: %s is not a device", uuid))
+	}
 	return parse, nil
 }
-- 
2.43.0


From 8780e6c384f67d6a59455ae2974a552bfa9f7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 41/60] fix: devices are reached on their own port

---
 network/device.go | 1 +
 network/store.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/network/device.go b/network/device.go
index 1dcc22f..79b6558 100644
--- a/network/device.go
+++ b/network/device.go
@@ -30,6 +30,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index fbed0c5..0d5aadb 100644
--- a/network/store.go
+++ b/network/store.go
@@ -67,6 +67,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 401e99d46b11025f2e963b40499cbf0c5b978a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 42/60] fix: the object list of a device with a single object
 is not empty

---
 network/objects.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..a18c046 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,15 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	ids, isList := out.Object.Properties[0].Data.([]interface{})
+	if !isList { //a list of one value is decoded as the value itself
+		ids = []interface{}{out.Object.Properties[0].Data}
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id in the object list, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
-- 
2.43.0


From 3a03a433746a6f8e4c97e00f7b3529babd7e2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 43/60] fix: a failed read of an object list element is an
 error, not a panic

---
 network/objects.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index a18c046..c068448 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -75,13 +75,25 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, fmt.Errorf("unable to read the length of the object list")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, fmt.Errorf("no value returned for object %d of the object list", i)
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id in the object list, got %T", out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From 8826296c249dff4eb8e401005d137661dcca7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 44/60] fix: NetworkDiscover keeps what a device announced when
 its details cannot be read

---
 network/whois.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/network/whois.go b/network/whois.go
index 74cb953..89b93a0 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -34,6 +34,9 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 			Segmentation:  device.Segmentation,
 		}
 		dev, err := btypes.NewDevice(buildDevice)
+		if err != nil {
+			return nil, err
+		}
 		details, err := net.GetDeviceDetails(*dev)
 		if err != nil {
 			return nil, err
@@ -48,12 +51,19 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 }
 
 func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails, err error) {
-	resp = &DeviceDetails{}
+	// what can't be read stays as it was announced
+	resp = &DeviceDetails{
+		Name:         device.DeviceName,
+		VendorName:   device.VendorName,
+		MaxApdu:      device.MaxApdu,
+		Segmentation: uint32(device.Segmentation),
+	}
 	props := []btypes.PropertyType{btypes.PropObjectName, btypes.PropMaxAPDU, btypes.PropVendorName, btypes.PropSegmentationSupported}
 	for _, prop := range props {
 		property, err := net.bacnet.ReadProperty(device, buildObj(device.DeviceID, prop))
 		if err != nil {
 			log.Errorln("bacnet-master-GetDeviceDetails()", err.Error())
+			continue
 		}
 		switch prop {
 		case btypes.PropObjectName:
-- 
2.43.0


From cba404828348e527c2e7ae0ab2327d8cc71a22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 45/60] fix: DeviceDiscover returns each device with its own
 data, read from that device

---
 network/discover.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..e53ba5a 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,25 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
-		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
-		}
 		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		found := &Device{
+			Ip:            host.IP.String(),
+			Port:          host.Port,
+			DeviceID:      int(dev.ID.Instance),
+			NetworkNumber: int(dev.Addr.Net),
+			MacMSTP:       dev.MacMSTP,
+			MaxApdu:       dev.MaxApdu,
+			Segmentation:  uint32(dev.Segmentation),
+			dev:           dev,
+			network:       device.network,
+		}
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		found.DeviceName = details.Name
+		found.VendorName = details.VendorName
+		devices = append(devices, found)
 
 	}
 	count := 1
-- 
2.43.0


From 98ae4cbeed28acb0adead91df4b33a8321c57e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 46/60] fix: bit string positions outside of its buffer are
 ignored instead of a panic

---
 btypes/bitstring.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index f69b203..cbe6f1f 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -39,7 +39,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if int(byteNumber) < len(bs.Value) {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +56,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if int(byteNumber) < len(bs.Value) {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -75,14 +75,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		bs.Value[index] = value
 		return true
 	}
-- 
2.43.0


From b6644d45206b8670c2cafe10c8898513e57554b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 47/60] fix: dates count their years from 1900

---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index ad6724d..bda5736 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -3,9 +3,9 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
+// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1900
 // limit
-const epochYear = 1990
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
-- 
2.43.0


From 3757bda6b752d4a38cc5ec335c3804ea7fbf4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 48/60] fix: a read property ack without a complete value is an
 error

---
 encoding/readprop.go | 8 ++++++--
 readprop.go          | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index d045944..0bb8203 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -141,8 +141,8 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			// We subtract one to ignore the closing tag.
 			datalist := make([]interface{}, 0)
 
-			// There is a closing tag of size 1 byte that we ignore which is why we are
-			// looping until the length is greater than 1
+			// The closing tag takes 1 byte, which is why we are looping until
+			// the length is greater than 1
 			for i := 0; d.buff.Len() > 1; i++ {
 				data, err := d.AppData()
 				if err != nil {
@@ -153,6 +153,10 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			}
 			prop.Data = datalist
 
+			if tag, meta := d.tagNumber(); d.Error() != nil || tag != openTag || !meta.isClosing() {
+				return &ErrorWrongTagType{ClosingTag}
+			}
+
 			// If we only have one value in the list, lets just return that value
 			if len(datalist) == 1 {
 				prop.Data = datalist[0]
diff --git a/readprop.go b/readprop.go
index decfe69..f9c98a2 100644
--- a/readprop.go
+++ b/readprop.go
@@ -74,6 +74,10 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
+		if len(out.Object.Properties) == 0 || out.Object.Properties[0].Data == nil {
+			err = fmt.Errorf("the read property ack has no value")
+			continue
+		}
 		return out, dec.Error()
 	}
 	return btypes.PropertyData{}, err
-- 
2.43.0


From 74cd2d560e8037b58913e36c48fdd0caed465a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 49/60] fix: a failure to send a Who-Is reaches the caller

The goroutine that sends shared its error variable with the subscription, which
reset it to nil before it was read. (A data race in all three broadcasts.)
---
 whatnetwork.go | 3 +--
 whois.go       | 2 +-
 whoisrouter.go | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..22cf4b3 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -17,7 +17,6 @@ in bacnet.handleMsg() the npdu.IsNetworkLayerMessage is always rejected so this
 */
 
 func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -36,7 +35,7 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
 		errChan <- err
 	}()
 	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
diff --git a/whois.go b/whois.go
index efd4b9a..09f0300 100644
--- a/whois.go
+++ b/whois.go
@@ -61,7 +61,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
 		errChan <- err
 	}()
 	values, err := c.utsm.Subscribe(start, end)
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..3416ebe 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -12,7 +12,6 @@ Is in beta
 */
 
 func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -31,7 +30,7 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
 		errChan <- err
 	}()
 	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
-- 
2.43.0


From fdc785b494b5a982483064e0b2384ac345739ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:28 +0000
Subject: [PATCH 50/60] fix: a context tag takes exactly its length in a
 read-property-multiple ack

---
 encoding/readmultipleack.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index a724a30..6a2b388 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -202,11 +202,15 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 								// the value follows the tag, unlike in application data
 								array = append(array, d.unsigned(int(lenValue)) > 0)
 							} else {
-								data, err := d.AppDataOfTag(tag, int(lenValue))
-								if err != nil {
-									return err
+								if !d.checkLength(int(lenValue)) {
+									return d.err
+								}
+								// inside of nested values the type is only a guess, the length isn't
+								content := NewDecoder(d.buff.Next(int(lenValue)))
+								data, err := content.AppDataOfTag(tag, int(lenValue))
+								if err == nil && content.len() == 0 {
+									array = append(array, data)
 								}
-								array = append(array, data)
 							}
 						}
 					} else {
-- 
2.43.0


From 7b47b63d50ba1b95c5abe7d1750bf9e581709e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 51/60] fix: nested values and booleans inside of context tag 2
 don't disturb the rest of a read-property-multiple ack

---
 encoding/readmultipleack.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 6a2b388..b1e59b4 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -170,18 +170,31 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
+								// number of tags that were opened inside of the date-time
+								inner := 0
 								for {
 									tag, meta, length = d.tagNumberAndValue()
 									if d.err != nil {
 										return d.err
 									}
-									if meta.isClosing() && tag == btypes.TimeStampDatetime {
-										break
+									if meta.isClosing() {
+										if inner == 0 {
+											if tag != btypes.TimeStampDatetime {
+												return &ErrorIncorrectTag{Expected: btypes.TimeStampDatetime, Given: tag}
+											}
+											break
+										}
+										inner--
+									} else if meta.isOpening() {
+										inner++
+									} else if meta.isContextSpecific() {
+										d.Skip(length)
 									} else if tag == tagDate {
 										d.date(&dt.Date, int(length))
 									} else if tag == tagTime {
 										d.time(&dt.Time, int(length))
-									} else if length > 0 {
+									} else if tag != tagBool {
+										// the value of a boolean is in its tag
 										d.Skip(length)
 									}
 								}
-- 
2.43.0


From a0d25e12f4c31b817b22d335c06b443c8c6b09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 52/60] fix: sequence and window number of segmented complex
 acks, a segment isn't a complete reply

---
 device.go        | 2 +-
 encoding/apdu.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 93f0007..05d3e71 100644
--- a/device.go
+++ b/device.go
@@ -290,7 +290,7 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 
 // checkAck makes sure that the reply acknowledges the service that was requested
 func checkAck(apdu *btypes.APDU, dataType btypes.PDUType, service btypes.ServiceConfirmed) error {
-	if apdu.DataType != dataType || apdu.Service != service {
+	if apdu.DataType != dataType || apdu.Service != service || apdu.SegmentedMessage {
 		return fmt.Errorf("received unexpected reply, type: %#x, service: %d", uint8(apdu.DataType), apdu.Service)
 	}
 	return nil
diff --git a/encoding/apdu.go b/encoding/apdu.go
index 0bf90eb..6f17551 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -52,6 +52,10 @@ func (e *Encoder) apduUnconfirmed(a btypes.APDU) {
 
 func (e *Encoder) apduComplexAck(a btypes.APDU) {
 	e.write(a.InvokeId)
+	if a.SegmentedMessage {
+		e.write(a.Sequence)
+		e.write(a.WindowNumber)
+	}
 	e.write(a.Service)
 }
 
@@ -132,6 +136,10 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
+	if a.SegmentedMessage {
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+	}
 	d.decode(&a.Service)
 	return d.Error()
 }
-- 
2.43.0


From fb04da3bd37c578af6a2d8af9a0da1232b44e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:55 +0000
Subject: [PATCH 53/60] fix: a nested context tag that is no boolean does not
 fail the whole RPM-ack

---
 encoding/readmultipleack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index b1e59b4..a645895 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -213,7 +213,12 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 								}
 							} else if tag == tagBool {
 								// the value follows the tag, unlike in application data
-								array = append(array, d.unsigned(int(lenValue)) > 0)
+								if !d.checkLength(int(lenValue)) {
+									return d.err
+								}
+								if content := d.buff.Next(int(lenValue)); len(content) == 1 {
+									array = append(array, content[0] > 0)
+								}
 							} else {
 								if !d.checkLength(int(lenValue)) {
 									return d.err
-- 
2.43.0


From a74b92680af655f76dcec4f9543304ff498c6829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:38 +0000
Subject: [PATCH 54/60] fix: object identifiers that don't fit are refused as
 values, too

---
 encoding/appdata.go | 9 +++++++++
 iam.go              | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 0f166fa..f5aa84b 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -115,6 +115,15 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagEnumerated, Context: appLayerContext, Value: uint32(length)})
 		e.enumerated(v)
 	case btypes.ObjectID:
+		err := isValidObjectType(val.Type)
+		if err == nil {
+			err = isValidInstance(val.Instance)
+		}
+		if err != nil {
+			// Set global error
+			e.err = err
+			return err
+		}
 		e.tag(tagInfo{ID: tagObjectID, Context: appLayerContext, Value: objectIDLen})
 		e.objectId(val.Type, val.Instance)
 	case null.Null:
diff --git a/iam.go b/iam.go
index 661ac64..d9aa14b 100644
--- a/iam.go
+++ b/iam.go
@@ -23,7 +23,9 @@ func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.IAm(iam)
+	if err := enc.IAm(iam); err != nil {
+		return err
+	}
 	_, err := c.Send(dest, npdu, enc.Bytes(), nil)
 	return err
 }
-- 
2.43.0


From bc3b22da90043dcf776d8b13fd9c95cfe4f11086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:03 +0000
Subject: [PATCH 55/60] fix: NetworkDiscover asks each device at the address it
 announced itself from

---
 network/whois.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index 89b93a0..2a5e761 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -24,20 +24,7 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-		buildDevice := &btypes.Device{
-			DeviceID:      device.DeviceID,
-			Ip:            device.Ip,
-			Port:          device.Port,
-			NetworkNumber: device.NetworkNumber,
-			MacMSTP:       device.MacMSTP,
-			MaxApdu:       device.MaxApdu,
-			Segmentation:  device.Segmentation,
-		}
-		dev, err := btypes.NewDevice(buildDevice)
-		if err != nil {
-			return nil, err
-		}
-		details, err := net.GetDeviceDetails(*dev)
+		details, err := net.GetDeviceDetails(device)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f7054dbdb3db94997e5d6795cea05b4bb323cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:12 +0000
Subject: [PATCH 56/60] fix: an element of the object list that was not
 answered fails the scan

---
 objectlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index 4cf644c..f37c8ab 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -64,6 +64,9 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
 
 	for i, prop := range resp.Objects[0].Properties {
+		if prop.Type != btypes.PropObjectList || prop.ArrayIndex != uint32(start+i) {
+			return nil, fmt.Errorf("expected object %d of the list, got element %d of property %d", start+i, prop.ArrayIndex, prop.Type)
+		}
 		id, ok := prop.Data.(btypes.ObjectID)
 		if !ok {
 			return nil, fmt.Errorf("expected type Object ID, got %T", prop.Data)
-- 
2.43.0


From 56ef2df36cc85ce3fe4a6eb78b4ba8e41815dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:45 +0000
Subject: [PATCH 57/60] fix: a read-property-multiple acknowledgement that ends
 before its closing tag is undecodable

---
 encoding/readmultipleack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index a645895..6633823 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -264,6 +264,10 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 				return &ErrorIncorrectTag{Expected: 4, Given: tag}
 			}
 		}
+		if d.Error() == nil && (tag != 1 || !meta.isClosing()) {
+			// the list of properties isn't complete
+			return &ErrorWrongTagType{ClosingTag}
+		}
 
 		*objects = append(*objects, obj)
 	}
-- 
2.43.0


From 9764ea1cbb8e26e98dd919155e3e37ad865e859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 58/60] fix: a data link on an invalid port is an error, it
 doesn't listen on a random one

---
 datalink/udp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index f87ad64..5d8a00e 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -76,7 +76,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
-	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	if err != nil {
+		return nil, err
+	}
 	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 00b28346584b646cad431f89fe4bb4adfde835ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:31 +0000
Subject: [PATCH 59/60] fix: UDPToAddress converts an IPv4 address in its 16
 byte form

---
 datalink/udp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index 5d8a00e..9c9830a 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -142,10 +142,8 @@ func UDPToAddress(n *net.UDPAddr) *btypes.Address {
 	// Length of IP plus the port
 	length := net.IPv4len + 2
 	a.Mac = make([]uint8, length)
-	//Encode ip
-	for i := 0; i < net.IPv4len; i++ {
-		a.Mac[i] = n.IP[i]
-	}
+	//Encode ip, it may be in its 16 byte form
+	copy(a.Mac, n.IP.To4())
 	// Encode port
 	a.Mac[net.IPv4len+0] = uint8(p >> 8)
 	a.Mac[net.IPv4len+1] = uint8(p & 0x00FF)
-- 
2.43.0


From 7a15fa3b74e054c040996257c65c5781a35be403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:39 +0000
Subject: [PATCH 60/60] fix: point details named a unit for points that have
 none or whose unit could not be read

A failed or mistyped read of the units became unit 0, "SquareMeters", and unit
numbers of more than two octets were named after their low 16 bits.
---
 network/points.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/network/points.go b/network/points.go
index 120aab7..ff244b2 100644
--- a/network/points.go
+++ b/network/points.go
@@ -7,6 +7,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes/priority"
 	"github.com/NubeDev/bacnet/btypes/units"
 	"github.com/NubeDev/bacnet/helpers/data"
+	"math"
 )
 
 type Point struct {
@@ -54,8 +55,14 @@ func (device *Device) PointDetails(pnt *Point) (resp *PointDetails, err error) {
 		case btypes.PropObjectName:
 			resp.Name = device.toStr(read)
 		case btypes.PropUnits:
-			resp.Unit = device.toUint32(read)
-			resp.UnitString = units.Unit.String(units.Unit(resp.Unit))
+			ok, unit := data.ToUint32(read)
+			if !ok {
+				continue
+			}
+			resp.Unit = unit
+			if unit <= math.MaxUint16 { // numbers that are no BACnet engineering unit have no name
+				resp.UnitString = units.Unit(unit).String()
+			}
 		}
 	}
 	return resp, nil
-- 
2.43.0

