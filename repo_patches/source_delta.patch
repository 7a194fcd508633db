From a2b3ffb7715b58b736364033fc929c088c31c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 01/27] fix: encode text-only formatting without text styling
 instead of panicking

---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..b58949a 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -870,7 +870,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From ff896bc3228fc4d378ab7f0205c5ccdc29285859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 02/27] fix: keep the content of SVG lines that do not end in a
 tag when flattening

---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index b58949a..f9feadc 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -1826,8 +1826,8 @@ func stripLineBreaksSvg(svg string) string {
 	parts := strings.Split(svg, "\n")
 	for i := range parts {
 		parts[i] = strings.TrimSpace(parts[i])
-		if !strings.HasSuffix(parts[i], ">") {
-			parts[i] = " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
+		if parts[i] != "" && !strings.HasSuffix(parts[i], ">") {
+			parts[i] += " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
 		}
 	}
 	return strings.Join(parts, "")
-- 
2.43.0


From 5834338477e954f359ee24ecba76ae072cf57103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 03/27] fix: decode raw analog events from ASCII lines

---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index f9feadc..1f63ffe 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
@@ -1087,7 +1087,7 @@ func RawPanelASCIIstringsToOutboundMessages(rp20_ascii []string) []*rwp.Outbound
 						},
 					}
 				case "Raw":
-					value := su.Intval(regex_cmd.FindStringSubmatch(inputString)[6])
+					value := su.Intval(regex_cmd_inbound.FindStringSubmatch(inputString)[6])
 					msg = &rwp.OutboundMessage{
 						Events: []*rwp.HWCEvent{
 							&rwp.HWCEvent{
-- 
2.43.0


From fc8bb146bb6adfadabb96ab8688c116028204986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 04/27] fix: never deliver a graphics image from out-of-order,
 repeated or trailing chunks

---
 converterFunctions.go |  6 ++++--
 rawpanelhelpers.go    | 12 +++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 1f63ffe..2b1750d 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -377,8 +377,8 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				}
 				if temp_HWCGfx_ImageType == imageType {
 					if submatches[2] == temp_HWCGfx_HWClist { // Check that HWC list is the same as last one
-						temp_HWCGfx_count++
-						if gPartIndex == temp_HWCGfx_count { // Make sure index is the next in line
+						if gPartIndex == temp_HWCGfx_count+1 { // Make sure index is the next in line
+							temp_HWCGfx_count++
 							temp_HWCGfx.ImageData = append(temp_HWCGfx.ImageData, decodedSlice...)
 							if gPartIndex == temp_HWCGfx_max { // If we have reached the final one, wrap it up:
 								msg = &rwp.InboundMessage{
@@ -389,9 +389,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 										},
 									},
 								}
+								temp_HWCGfx_HWClist = "" // Complete: No further line belongs to this transfer
 								//fmt.Println("DID IT! ", submatches)
 							}
 						} else {
+							temp_HWCGfx_HWClist = "" // Broken: Wait for the start of a new transfer
 							//fmt.Println("gPartIndex didn't match expected")
 						}
 					} else {
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..67f72a4 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -653,15 +653,17 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 
 		if ar.HWCGfx_ImageType == submatches[1] {
 			if ar.HWCGfx_HWClist == submatches[2] { // Check that HWC list is the same as last one
-				ar.HWCGfx_count++
-				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
+				if gPartIndex == ar.HWCGfx_count+1 { // Make sure index is the next in line
+					ar.HWCGfx_count++
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
-						ar.HWCGfx_count = -1 // Reset
-						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
+						lines := ar.HWCGfx
+						*ar = ASCIIreader{HWCGfx_count: -1} // Reset
+						return RawPanelASCIIstringsToInboundMessages(lines)
 					}
 				} else {
-					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count+1)
+					*ar = ASCIIreader{HWCGfx_count: -1} // Broken: Wait for the start of a new transfer
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
-- 
2.43.0


From 5724e6a8a9a1009ff177409c8eacf3c0b6d606ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 05/27] fix: never return a nil message for null elements of a
 JSON message list

---
 converterFunctions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 2b1750d..916fc98 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, myStateMsg := range myStateMsgs {
+					if myStateMsg != nil { // "null" elements carry no message
+						returnMsgs = append(returnMsgs, myStateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
-- 
2.43.0


From 5bf078e326a935c141260531856a94ac9d9d5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 06/27] fix: keep line feeds of free text out of the produced
 ASCII strings

---
 converterFunctions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/converterFunctions.go b/converterFunctions.go
index 916fc98..5eddc26 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -938,6 +938,8 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 		}
 	}
 
+	replaceLineFeeds(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1755,6 +1757,8 @@ func OutboundMessagesToRawPanelASCIIstrings(outboundMsgs []*rwp.OutboundMessage)
 		}
 	}
 
+	replaceLineFeeds(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1847,6 +1851,13 @@ func stripLineBreaks(in string) string {
 	return strings.Join(parts, "")
 }
 
+// Line feeds delimit the strings on the wire, so none may remain inside of them (titles, names, ids etc. are free text)
+func replaceLineFeeds(lines []string) {
+	for i := range lines {
+		lines[i] = strings.ReplaceAll(lines[i], "\n", " ")
+	}
+}
+
 func networkConfigFromString(str string) *rwp.NetworkConfig {
 
 	networkConfig := &rwp.NetworkConfig{}
-- 
2.43.0


From 645bd43f32ef1d5a257ad38493ad649c2eaf0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 07/27] fix: do not resolve negative or too large component
 numbers to another component or panic

---
 topology/topology.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..0a7ddce 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -367,7 +367,7 @@ func (topology *Topology) GetTypeDefWithOverride(HWcDef *TopologyHWcomponent) To
 
 func (top *Topology) GetHWCTypeDefinitionFromHWCid(HWCid int) *TopologyHWcTypeDef {
 	for k, r := range top.HWc {
-		if r.Id == uint32(HWCid) {
+		if uint64(r.Id) == uint64(HWCid) {
 			return top.GetHWCTypeDefinition(k)
 		}
 	}
@@ -376,7 +376,7 @@ func (top *Topology) GetHWCTypeDefinitionFromHWCid(HWCid int) *TopologyHWcTypeDe
 }
 func (top *Topology) GetHWCDefinitionFromHWCid(HWCid int) *TopologyHWcomponent {
 	for _, r := range top.HWc {
-		if r.Id == uint32(HWCid) {
+		if uint64(r.Id) == uint64(HWCid) {
 			return &r
 		}
 	}
@@ -385,7 +385,7 @@ func (top *Topology) GetHWCDefinitionFromHWCid(HWCid int) *TopologyHWcomponent {
 }
 
 func (top *Topology) GetHWCTypeDefinition(HWCMapKey int) *TopologyHWcTypeDef {
-	if HWCMapKey >= len(top.HWc) {
+	if HWCMapKey < 0 || HWCMapKey >= len(top.HWc) {
 		return &TopologyHWcTypeDef{}
 	}
 
-- 
2.43.0


From 881bc3713668f64f6aa2a36e841b03e5533db557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 08/27] fix: never renumber a type to 0, which means disabled

---
 topology/topology.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 0a7ddce..46492bc 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -277,7 +277,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
 		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		typeMapping[typeNum] = uint32(1 + r1.Intn(1000000))
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(1000000))
 				}
 			} else {
 				break
-- 
2.43.0


From fe5a1da5581763ee112d42981967ba2f30aabdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 09/27] fix: monogfx DrawPixel clips at the left and top of the
 bounding box and canvas

---
 ibeam_lib_monogfx/monogfx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index d734fdd..a46d69f 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -234,11 +234,14 @@ func (img *MonoImg) SetOLEDPixelColor(color int) {
 
 // Draws pixel in a given position
 func (img *MonoImg) DrawPixel(x int, y int, color bool) {
+	if x < 0 || y < 0 { // Left of or above the bounding box
+		return
+	}
 	x += img.bbox_x
 	y += img.bbox_y
 	widthMax := su.Qint(img.bbox_width+img.bbox_x > img.Width, img.Width, img.bbox_width+img.bbox_x)
 	heightMax := su.Qint(img.bbox_height+img.bbox_y > img.Height, img.Height, img.bbox_height+img.bbox_y)
-	if x < widthMax && y < heightMax {
+	if x >= 0 && y >= 0 && x < widthMax && y < heightMax {
 		index := y*img.widthInBytes + x/8
 		if index >= 0 && index < len(img.imgBytes) { // Check we are not writing out of bounds
 			if color != img.invertPixels { // XOR of the two...
-- 
2.43.0


From 7023deb9d247a0274c6c7b74f4d66a5748892e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:01 +0000
Subject: [PATCH 10/27] fix: a mono image with less data than its size shows
 the rows and columns the data covers

---
 ibeam_lib_monogfx/monogfx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index a46d69f..1153427 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -90,6 +90,7 @@ func (img *MonoImg) CreateFromImage(src image.Image) {
 func (img *MonoImg) CreateFromBytes(width int, height int, bytes []byte) error {
 	img.NewImage(width, height)
 	if img.widthInBytes*height > len(bytes) {
+		copy(img.imgBytes, bytes) // Use what there is
 		return fmt.Errorf("addressable dimensions larger than provided byte slice")
 	}
 	img.imgBytes = bytes
-- 
2.43.0


From f85f17a8745bd37e1cffd84a8b5e447f56d976dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 11/27] fix: a frame that stalls inside its length header also
 ends the connection after 2 s

---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..0a64b12 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -179,7 +179,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Wait for the first header byte for as long as it takes
+					if err == nil {
+						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of the header must follow
+						_, err = io.ReadFull(conn, headerArray[1:])
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
-- 
2.43.0


From c13e9bafd92359f2b607166faf12a4c73ea0d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 12/27] fix: ConnectToPanel ends promptly on cancellation while
 it dials, waits or hands over messages

The waits before a new connection, the dialling and the hand-over to msgsFromPanel did not look at the context, so that
the call could return late, connect again after cancellation, or never return if the reader of msgsFromPanel had stopped.
The wait group now also counts the writing goroutine before it starts.
---
 connecttopanel.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 0a64b12..ad775a0 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -53,7 +53,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 	// Main loop for continuous connection attempts:
 	for {
 		log.Debugln("Trying to connect to panel on " + panelIPAndPort)
-		conn, err := net.Dial("tcp", panelIPAndPort)
+		conn, err := (&net.Dialer{}).DialContext(ctx, "tcp", panelIPAndPort)
 
 		if err != nil {
 			//fmt.Println(err)
@@ -132,9 +132,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+			if wg != nil {
+				wg.Add(1) // Before the goroutine starts, so that nobody stops waiting for it too early
+			}
 			go func() {
 				if wg != nil {
-					wg.Add(1)
 					defer wg.Done()
 				}
 				for {
@@ -199,7 +201,10 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 							} else {
 								outcomingMessage := &rwp.OutboundMessage{}
 								proto.Unmarshal(payload, outcomingMessage)
-								msgsFromPanel <- []*rwp.OutboundMessage{outcomingMessage}
+								select {
+								case msgsFromPanel <- []*rwp.OutboundMessage{outcomingMessage}:
+								case <-ctx.Done(): // The reader of the channel may be gone. Reading will fail next, because the connection gets closed.
+								}
 							}
 						} else {
 							log.Debugln("Error: Payload", currentPayloadLength, "exceed limit")
@@ -215,13 +220,16 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 					if err != nil {
 						if err == io.EOF {
 							log.Debugln("Panel: " + conn.RemoteAddr().String() + " disconnected")
-							time.Sleep(time.Second)
+							sleepOrDone(ctx, time.Second)
 						} else {
 							log.Debugln(err)
 						}
 						break
 					} else {
-						msgsFromPanel <- RawPanelASCIIstringsToOutboundMessages([]string{strings.TrimSpace(netData)})
+						select {
+						case msgsFromPanel <- RawPanelASCIIstringsToOutboundMessages([]string{strings.TrimSpace(netData)}):
+						case <-ctx.Done(): // The reader of the channel may be gone. Reading will fail next, because the connection gets closed.
+						}
 					}
 				}
 			}
@@ -230,7 +238,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			log.Debugln("Network connection closed or failed for ", panelIPAndPort)
 			close(quit)
 			conn.Close()
-			doExit := exit.Load()
+			doExit := exit.Load() || ctx.Err() != nil
 			if ondisconnect != nil {
 				ondisconnect(doExit)
 			}
@@ -239,7 +247,21 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			}
 
 			log.Debugf("Retrying in %d seconds for %s\n", reConnectionRetryPeriod, panelIPAndPort)
-			time.Sleep(time.Duration(reConnectionRetryPeriod) * time.Second)
+			if !sleepOrDone(ctx, time.Duration(reConnectionRetryPeriod)*time.Second) {
+				return
+			}
 		}
 	}
 }
+
+// Sleeps for a while, but not longer than until the context is done, in which case it returns false
+func sleepOrDone(ctx context.Context, d time.Duration) bool {
+	timer := time.NewTimer(d)
+	defer timer.Stop()
+	select {
+	case <-ctx.Done():
+		return false
+	case <-timer.C:
+		return true
+	}
+}
-- 
2.43.0


From e8059e6529bd40389499e518be6deb472f82a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 13/27] fix: negotiate binary also when the panel's reply to
 the ping arrives in pieces or with more frames

---
 connecttopanel.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index ad775a0..3d492af 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -2,6 +2,7 @@ package rawpanellib
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"encoding/binary"
 	"io"
@@ -87,15 +88,18 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			byteArray := make([]byte, 1000)
 			err = conn.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 			log.Should(err)
-			byteCount, err := conn.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteCount, err := readProbeReply(conn, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 			assumeASCII := false
 			binaryPanel := true
+			var binaryReader io.Reader = conn
 			if err == nil {
 				if byteCount > 4 {
 					responsePayloadLength := binary.LittleEndian.Uint32(byteArray[0:4])
-					if responsePayloadLength+4 == uint32(byteCount) {
+					if uint64(responsePayloadLength)+4 <= uint64(byteCount) {
+						replyEnd := 4 + int(responsePayloadLength)
+						binaryReader = io.MultiReader(bytes.NewReader(byteArray[replyEnd:byteCount]), conn) // Frames may have arrived along with the reply
 						reply := &rwp.OutboundMessage{}
-						proto.Unmarshal(byteArray[4:byteCount], reply)
+						proto.Unmarshal(byteArray[4:replyEnd], reply)
 						if reply.FlowMessage == rwp.OutboundMessage_ACK {
 							log.Debugln("Received ACK successfully: ", byteArray[0:byteCount])
 							log.Debugln("Using Binary Protocol Mode for panel ", panelIPAndPort)
@@ -181,10 +185,10 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray[:1]) // Wait for the first header byte for as long as it takes
+					_, err := io.ReadFull(binaryReader, headerArray[:1]) // Wait for the first header byte for as long as it takes
 					if err == nil {
 						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of the header must follow
-						_, err = io.ReadFull(conn, headerArray[1:])
+						_, err = io.ReadFull(binaryReader, headerArray[1:])
 					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
@@ -194,7 +198,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 						if currentPayloadLength < 500000 {
 							payload := make([]byte, currentPayloadLength)
 							conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // Set a deadline that we want all data within at most 2 seconds. This helps a run-away scenario where not all data arrives or we read the wront (and too big) header
-							_, err := io.ReadFull(conn, payload)
+							_, err := io.ReadFull(binaryReader, payload)
 							if err != nil {
 								log.Debugln(err)
 								break
@@ -265,3 +269,24 @@ func sleepOrDone(ctx context.Context, d time.Duration) bool {
 		return true
 	}
 }
+
+// Reads the reply to the binary ping. TCP may deliver it in pieces, so it reads on while what has arrived can still be the beginning of a binary frame
+func readProbeReply(conn net.Conn, buf []byte) (int, error) {
+	count := 0
+	for {
+		n, err := conn.Read(buf[count:])
+		count += n
+		if err != nil {
+			return count, err
+		}
+		header := make([]byte, 4)
+		copy(header, buf[:count])
+		length := binary.LittleEndian.Uint32(header)
+		if length > uint32(len(buf)-4) {
+			return count, nil // Not a frame which we would expect, most likely text
+		}
+		if count >= 4 && uint32(count) >= 4+length {
+			return count, nil
+		}
+	}
+}
-- 
2.43.0


From cc1c767798f60ec231f2239bf6e8038855335a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:54 +0000
Subject: [PATCH 14/27] fix: keep namespace prefixes and all text of the base
 SVG in the composite SVG

---
 topology/svgicon.go | 58 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/topology/svgicon.go b/topology/svgicon.go
index 2bf9df2..9bce1e9 100644
--- a/topology/svgicon.go
+++ b/topology/svgicon.go
@@ -6,6 +6,7 @@ package topology
 
 import (
 	"encoding/json"
+	encxml "encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -36,7 +37,7 @@ func GenerateCompositeSVG(topologyJSON string, topologySVG string, theMap map[ui
 func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map[uint32]uint32, showLabels, showHWCID, showType, showDisplaySize bool) *xml.Document {
 
 	// Parsing SVG file:
-	svgDoc, err := xmldom.ParseXML(topologySVG)
+	svgDoc, err := parseSVG(topologySVG)
 	if err != nil {
 		log.Should(err)
 		return nil
@@ -216,6 +217,61 @@ func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map
 	return svgDoc
 }
 
+// Parses the base SVG. go-xmldom leaves out the namespace prefixes of names (so that "href" and "xlink:href" become the same)
+// and keeps only the last piece of an element's text (nothing of a CDATA section with line breaks around it), so we fill those in.
+func parseSVG(svg string) (*xml.Document, error) {
+	svgDoc, err := xmldom.ParseXML(svg)
+	if err != nil || svgDoc.Root == nil {
+		return svgDoc, err
+	}
+
+	type openNode struct {
+		node      *xml.Node
+		nextChild int
+		text      string
+	}
+	open := []*openNode{}
+	decoder := encxml.NewDecoder(strings.NewReader(svg))
+	for {
+		token, err := decoder.RawToken()
+		if err != nil {
+			return svgDoc, nil
+		}
+		switch t := token.(type) {
+		case encxml.StartElement:
+			node := svgDoc.Root
+			if len(open) > 0 {
+				parent := open[len(open)-1]
+				node = parent.node.Children[parent.nextChild]
+				parent.nextChild++
+			}
+			node.Name = nameWithPrefix(t.Name)
+			for i := range t.Attr {
+				node.Attributes[i].Name = nameWithPrefix(t.Attr[i].Name)
+			}
+			open = append(open, &openNode{node: node})
+		case encxml.CharData:
+			if len(open) > 0 {
+				open[len(open)-1].text += string(t)
+			}
+		case encxml.EndElement:
+			closing := open[len(open)-1]
+			closing.node.Text = strings.TrimSpace(closing.text)
+			open = open[:len(open)-1]
+			if len(open) == 0 {
+				return svgDoc, nil // End of the root element
+			}
+		}
+	}
+}
+
+func nameWithPrefix(name encxml.Name) string {
+	if name.Space != "" {
+		return name.Space + ":" + name.Local
+	}
+	return name.Local
+}
+
 func addFormatting(newHWc *xml.Node, id int) {
 	// There is some common conventional formatting regardless of rectangle / circle: Like fill and stroke color and stroke width.
 	newHWc.SetAttributeValue("fill", "#dddddd")
-- 
2.43.0


From d981befda5003b1decacb96ea5c39dbe869199f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 15/27] fix: fall back to the default colour for colour indexes
 outside of the table

---
 rawpanelhelpers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 67f72a4..f079f9a 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -218,7 +218,10 @@ func convertToColorRGB16bit(colorObj rwp.Color) int {
 			uint32((su.MapAndConstrainValue(int(colorObj.ColorRGB.Blue), 0, 0xFF, 0, 0x3)&0x3)<<0))
 	} else if colorObj.ColorIndex != nil {
 		outputInteger := uint32(colorObj.ColorIndex.Index & 0x1F)
-		output = su.Qint(len(buttonColors) > int(outputInteger), int(buttonColors[outputInteger]), int(buttonColors[0]))
+		output = int(buttonColors[0])
+		if int(outputInteger) < len(buttonColors) {
+			output = int(buttonColors[outputInteger])
+		}
 	}
 	return output
 }
-- 
2.43.0


From e23fc1be9f2e72bdfe83d9d3acc1e80ea3239911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 16/27] fix: do not change the text state of the caller while
 rendering a tile

---
 rawpanelhelpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index f079f9a..ae41e8f 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -308,6 +308,9 @@ func TrimExplode(str string, token string) []string {
 // Port of similar function in UniSketch:
 func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink int, border int) monogfx.MonoImg { // Border and shrink shall come from info about the tile we render onto...
 
+	// Work on a copy, as absent sub-messages are filled in below and that should not change the state of the caller
+	textStruct = proto.Clone(textStruct).(*rwp.HWCText)
+
 	if textStruct.TextStyling == nil {
 		textStruct.TextStyling = &rwp.HWCText_TextStyle{}
 	}
-- 
2.43.0


From f57e18cc2bf124a3c1f6802e798cfc37d802d833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 17/27] fix: compute tile scale ranges and limits without 32
 bit overflow

---
 rawpanelhelpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index ae41e8f..2c7af5d 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -563,7 +563,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh - textStruct.Scale.RangeLow)
+					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
 					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
@@ -583,11 +583,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 						}
 
 						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitHigh-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int((float64(textStruct.Scale.LimitHigh)-float64(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitLow-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int((float64(textStruct.Scale.LimitLow)-float64(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0


From ad96c63dc183cd1d9522754a08d4c666eae16603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 18/27] fix: Connect fails when the connection ends before the
 panel is initialized

---
 gorwp/rawpanel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..3853bd7 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -139,7 +139,10 @@ func (rp *RawPanel) init(ctx context.Context) error {
 	// Wait for either signal that init was OK - or return after two seconds where it did not happen
 	select {
 	case <-ctx.Done():
-		return nil
+		if rp.IsInitialized() {
+			return nil
+		}
+		return fmt.Errorf("connection ended before the panel was initialized: %w", ctx.Err())
 	case <-initialized:
 		return nil
 	case <-time.After(2 * time.Second):
-- 
2.43.0


From 08bc07cca6d358c2556d46d9d95a5c85f3e04dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 19/27] fix: gorwp gives up the connection after a frame above
 the payload limit

---
 gorwp/rawpanel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 3853bd7..f1e272d 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -227,7 +227,8 @@ func (rp *RawPanel) readFromPanel() error {
 						}
 					}
 				} else {
-					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					// What follows can't be told apart from the payload, so the connection can't be used any longer:
+					return fmt.Errorf("payload of %d bytes exceeds limit", currentPayloadLength)
 				}
 			}
 		}
-- 
2.43.0


From 9310f0af57039a300eb796b5c573fb0731d8e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:03 +0000
Subject: [PATCH 20/27] fix: gorwp sends to the panel independently of
 processing its messages

---
 gorwp/rawpanel.go | 57 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index f1e272d..c158fd8 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -152,36 +152,33 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 func (rp *RawPanel) listen(ctx context.Context) {
 
-	// Listening for messages to/from panel
+	// Sending messages to the panel. This and the processing of messages from the panel have a goroutine each, because
+	// the processing - including the bound functions it calls - sends messages itself and would otherwise wait for itself
+	// when the queue is full.
 	go func() {
 		ticker := time.NewTicker(1000 * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ctx.Done():
 				//fmt.Println("Stops listening for toPanel messages")
 				return
 			case messagesToPanel := <-rp.toPanel: // Messages from us to the panel.
-				if rp.binaryPanel {
-					for _, msg := range messagesToPanel {
-						pbdata, _ := proto.Marshal(msg) // Encode data
-						log.Debugln("System -> Panel: ", pbdata)
-
-						header := make([]byte, 4)                                  // Create a 4-bytes header
-						binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
-						pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
-						rp.connection.Write(pbdata)
-					}
-				} else {
-					lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
-					for _, line := range lines {
-						log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
-						rp.connection.Write([]byte(line + "\n"))
-					}
-				}
+				rp.writeToPanel(messagesToPanel)
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				rp.writeToPanel([]*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
+				}})
+			}
+		}
+	}()
+
+	// Processing messages from the panel
+	go func() {
+		for {
+			select {
+			case <-ctx.Done():
+				return
 			case messagesFromPanel := <-rp.fromPanel:
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
@@ -196,6 +193,26 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	(*rp.cancel)()
 }
 
+func (rp *RawPanel) writeToPanel(messagesToPanel []*rwp.InboundMessage) {
+	if rp.binaryPanel {
+		for _, msg := range messagesToPanel {
+			pbdata, _ := proto.Marshal(msg) // Encode data
+			log.Debugln("System -> Panel: ", pbdata)
+
+			header := make([]byte, 4)                                  // Create a 4-bytes header
+			binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
+			pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
+			rp.connection.Write(pbdata)
+		}
+	} else {
+		lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
+		for _, line := range lines {
+			log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
+			rp.connection.Write([]byte(line + "\n"))
+		}
+	}
+}
+
 func (rp *RawPanel) readFromPanel() error {
 	// Reading from panel:
 	if rp.binaryPanel {
-- 
2.43.0


From 8b5221e5dea7a8fb878c3ec3010a4fc698e22354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 21/27] fix: gorwp handlers can be bound while events are
 dispatched

---
 gorwp/inputs.go   | 45 +++++++++++++++++++++++++++++++++++++++++++++
 gorwp/rawpanel.go | 12 +++++++-----
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..702a362 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -44,9 +44,18 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.binaryBindings[hwc] = f
 }
 
+func (rp *RawPanel) binaryBinding(hwc uint32) (BinaryFunc, bool) {
+	rp.bindingsMU.RLock()
+	defer rp.bindingsMU.RUnlock()
+	f, exists := rp.binaryBindings[hwc]
+	return f, exists
+}
+
 // Type PulsedFunc is a function signature used for callbacks on encoder
 // events, similar to BinaryFunc's use with binary events.  The second
 // is simply +1/-1 (for right/left button turns)
@@ -56,9 +65,18 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.pulsedBindings[hwc] = f
 }
 
+func (rp *RawPanel) pulsedBinding(hwc uint32) (PulsedFunc, bool) {
+	rp.bindingsMU.RLock()
+	defer rp.bindingsMU.RUnlock()
+	f, exists := rp.pulsedBindings[hwc]
+	return f, exists
+}
+
 // Type AbsoluteFunc is a function signature used for callbacks on fader
 // events. The second parameter is the fader position 0-1000
 type AbsoluteFunc func(uint32, int)
@@ -67,9 +85,18 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.absoluteBindings[hwc] = f
 }
 
+func (rp *RawPanel) absoluteBinding(hwc uint32) (AbsoluteFunc, bool) {
+	rp.bindingsMU.RLock()
+	defer rp.bindingsMU.RUnlock()
+	f, exists := rp.absoluteBindings[hwc]
+	return f, exists
+}
+
 // Type IntensityFunc is a function signature used for callbacks on joystick
 // events. The second parameter is the intensity of the joystick axis, ranging
 // from -500 to 500
@@ -79,9 +106,18 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.intensityBindings[hwc] = f
 }
 
+func (rp *RawPanel) intensityBinding(hwc uint32) (IntensityFunc, bool) {
+	rp.bindingsMU.RLock()
+	defer rp.bindingsMU.RUnlock()
+	f, exists := rp.intensityBindings[hwc]
+	return f, exists
+}
+
 // Type TriggerFunc is a function signature used for callbacks on generic
 // raw panel events. The second parameter is the raw panel protobuf event
 // structure. This contains the most details of events.
@@ -90,5 +126,14 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
+	rp.bindingsMU.Lock()
+	defer rp.bindingsMU.Unlock()
 	rp.triggerBindings[hwc] = f
 }
+
+func (rp *RawPanel) triggerBinding(hwc uint32) (TriggerFunc, bool) {
+	rp.bindingsMU.RLock()
+	defer rp.bindingsMU.RUnlock()
+	f, exists := rp.triggerBindings[hwc]
+	return f, exists
+}
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index c158fd8..33a388a 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindingsMU        sync.RWMutex // Bindings may be added while events are processed
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -340,19 +342,19 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
+				if receiverFunc, exists := rp.triggerBinding(event.HWCID); exists {
 					receiverFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
+				if receiverFunc, exists := rp.binaryBinding(event.HWCID); exists && event.Binary != nil {
 					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
+				if receiverFunc, exists := rp.pulsedBinding(event.HWCID); exists && event.Pulsed != nil {
 					receiverFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
+				if receiverFunc, exists := rp.absoluteBinding(event.HWCID); exists && event.Absolute != nil {
 					receiverFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
+				if receiverFunc, exists := rp.intensityBinding(event.HWCID); exists && event.Speed != nil {
 					receiverFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
-- 
2.43.0


From 0da39abfb1811442256f9c991a1d6f6188bb31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 22/27] fix: gorwp processes what the panel sent before the
 connection ended

---
 gorwp/rawpanel.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 33a388a..be3d70f 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -175,13 +175,18 @@ func (rp *RawPanel) listen(ctx context.Context) {
 		}
 	}()
 
-	// Processing messages from the panel
+	// Processing messages from the panel, including those received right before the connection ends
+	processed := make(chan struct{})
 	go func() {
+		defer close(processed)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case messagesFromPanel := <-rp.fromPanel:
+			case messagesFromPanel, ok := <-rp.fromPanel:
+				if !ok {
+					return
+				}
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
 		}
@@ -191,7 +196,9 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	err := rp.readFromPanel()
 	log.Should(err)
 
+	close(rp.fromPanel)
 	rp.connection.Close()
+	<-processed
 	(*rp.cancel)()
 }
 
-- 
2.43.0


From c7f4c77db34b217abdf76a21399f319c97ac9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:14 +0000
Subject: [PATCH 23/27] fix: ConnectToPanel ends when cancelled while a write
 to the panel is stuck

The goroutine that waits for the context is the one that writes, so with a
panel that takes no data cancellation had no effect: neither did the call
return nor was the connection closed.
---
 connecttopanel.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/connecttopanel.go b/connecttopanel.go
index 3d492af..d2e03ca 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -175,6 +175,21 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				}
 			}()
 
+			// The goroutine above may be stuck in a write, if the panel doesn't read, so another one makes sure that the connection gets closed at context shutdown
+			if wg != nil {
+				wg.Add(1)
+			}
+			go func() {
+				if wg != nil {
+					defer wg.Done()
+				}
+				select {
+				case <-ctx.Done():
+					conn.Close()
+				case <-quit:
+				}
+			}()
+
 			// At this point we should be connected and know what prototol to use. We may also have received an errormessage and been disconnected, but in that case we will figure it out later.
 			if onconnect != nil {
 				onconnect(errorMsg, binaryPanel, conn)
-- 
2.43.0


From 6a531189b244798680a7f4c4f3719a84e8ef8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 24/27] fix: gorwp processes what a message carries besides an
 acknowledge

Events, state and information in a message whose flow field is ACK were dropped.
---
 gorwp/rawpanel.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index be3d70f..436a554 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -248,9 +248,7 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
-						}
+						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
 					}
 				} else {
 					// What follows can't be told apart from the payload, so the connection can't be used any longer:
-- 
2.43.0


From ccc5100927a6a52728fe25309268482c6f64a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:30 +0000
Subject: [PATCH 25/27] fix: renumbering types does not define components whose
 type is not in the index

Their type number could be given to another type.
---
 topology/topology.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/topology/topology.go b/topology/topology.go
index 46492bc..4dfc65c 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -305,6 +305,13 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 		if HWc.Type != 0 { // If not disabled.
 			if newType, ok := typeMapping[HWc.Type]; !ok {
 				fmt.Printf("ERROR: Type %d not found in type index\n", HWc.Type)
+				// It must not end up with the definition of a type that got this number
+				for {
+					if _, exists := newTypeStruct[topology.HWc[i].Type]; !exists {
+						break
+					}
+					topology.HWc[i].Type++
+				}
 			} else {
 				topology.HWc[i].Type = newType
 			}
-- 
2.43.0


From 25fc58ed3aa983c8fe58dfc78899f11ede1867df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:37 +0000
Subject: [PATCH 26/27] fix: the detection of the encoding reads exactly the
 panel's reply

The reply may arrive in pieces: what was left of an acknowledge frame, or what
came right behind it, was lost or taken for the next frame, and the ready word
in pieces or with CRLF was taken for a binary reply.
---
 rawpanelhelpers.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 2c7af5d..6363456 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -7,6 +7,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"math"
 	"net"
 	"regexp"
@@ -706,7 +707,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 	err = c.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 	log.Should(err)
 
-	byteCount, err := c.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+	byteCount, err := readReplyOnly(c, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 	if err != nil {
 		log.WithError(err).Debug("tried to connected in binarymode failed, trying asciimode...")
 		log.Infoln("Using ASCII Protocol Mode for panel", panelIPAndPort)
@@ -715,7 +716,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	if byteCount >= 4 && isASCIIreply(byteArray) {
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
@@ -746,6 +747,37 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 	return true // Default is binary
 }
 
+// The ready word or a map line, as issued by UniSketch ASCII panels
+func isASCIIreply(reply []byte) bool {
+	start := string(reply[0:4])
+	return start == "RDY\n" || start == "RDY\r" || start == "map="
+}
+
+// Reads the reply to the binary ping, which TCP may deliver in pieces, but nothing of what comes after it: That belongs to whoever uses the connection afterwards
+func readReplyOnly(c net.Conn, buf []byte) (int, error) {
+	count, err := io.ReadFull(c, buf[:4])
+	if err != nil {
+		if count > 0 { // Too short for anything
+			err = nil
+		}
+		return count, err
+	}
+	if isASCIIreply(buf) {
+		for count < len(buf) && buf[count-1] != '\n' { // The rest of the line
+			if _, err := io.ReadFull(c, buf[count:count+1]); err != nil {
+				break
+			}
+			count++
+		}
+		return count, nil
+	}
+	if length := binary.LittleEndian.Uint32(buf); length <= uint32(len(buf)-4) {
+		n, _ := io.ReadFull(c, buf[4:4+length])
+		count += n
+	}
+	return count, nil
+}
+
 // Converts a monochrome byte slice back to image object
 func CreateImgObjectFromRGBBytes(w int, h int, data []byte) image.Image {
 	dest := image.NewRGBA(image.Rectangle{image.Point{0, 0}, image.Point{w, h}})
-- 
2.43.0


From e5d5c1478666b4d597ba19ef916cde856a8fbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:03 +0000
Subject: [PATCH 27/27] fix: ConnectToPanel takes a text reply as a line and
 delivers what follows it

An error message in the reply was cut off when it arrived in pieces, and lines
in the same segment as the reply were lost, or their ends taken for lines.
---
 connecttopanel.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index d2e03ca..f5fb65e 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -91,13 +91,13 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			byteCount, err := readProbeReply(conn, byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 			assumeASCII := false
 			binaryPanel := true
-			var binaryReader io.Reader = conn
+			var panelReader io.Reader = conn
 			if err == nil {
 				if byteCount > 4 {
 					responsePayloadLength := binary.LittleEndian.Uint32(byteArray[0:4])
 					if uint64(responsePayloadLength)+4 <= uint64(byteCount) {
 						replyEnd := 4 + int(responsePayloadLength)
-						binaryReader = io.MultiReader(bytes.NewReader(byteArray[replyEnd:byteCount]), conn) // Frames may have arrived along with the reply
+						panelReader = io.MultiReader(bytes.NewReader(byteArray[replyEnd:byteCount]), conn) // Frames may have arrived along with the reply
 						reply := &rwp.OutboundMessage{}
 						proto.Unmarshal(byteArray[4:replyEnd], reply)
 						if reply.FlowMessage == rwp.OutboundMessage_ACK {
@@ -126,6 +126,9 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				if strings.HasPrefix(parts[0], "ErrorMsg=") {
 					errorMsg = parts[0][9:]
 				}
+				if len(parts) > 1 {
+					panelReader = io.MultiReader(bytes.NewReader(byteArray[len(parts[0])+1:byteCount]), conn) // Lines may have arrived along with the reply
+				}
 
 				log.Debugf("Reply from panel was: %s\n", strings.ReplaceAll(string(byteArray[:byteCount]), "\n", "\\n"))
 				log.Debugln("Using ASCII Protocol Mode for panel", panelIPAndPort)
@@ -200,10 +203,10 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(binaryReader, headerArray[:1]) // Wait for the first header byte for as long as it takes
+					_, err := io.ReadFull(panelReader, headerArray[:1]) // Wait for the first header byte for as long as it takes
 					if err == nil {
 						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of the header must follow
-						_, err = io.ReadFull(binaryReader, headerArray[1:])
+						_, err = io.ReadFull(panelReader, headerArray[1:])
 					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
@@ -213,7 +216,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 						if currentPayloadLength < 500000 {
 							payload := make([]byte, currentPayloadLength)
 							conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // Set a deadline that we want all data within at most 2 seconds. This helps a run-away scenario where not all data arrives or we read the wront (and too big) header
-							_, err := io.ReadFull(binaryReader, payload)
+							_, err := io.ReadFull(panelReader, payload)
 							if err != nil {
 								log.Debugln(err)
 								break
@@ -233,7 +236,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				}
 			} else {
 				//log.Debugln("Reading ASCII lines...")
-				connectionReader := bufio.NewReader(conn) // Define OUTSIDE the for loop
+				connectionReader := bufio.NewReader(panelReader) // Define OUTSIDE the for loop
 				for {
 					netData, err := connectionReader.ReadString('\n')
 					if err != nil {
@@ -285,7 +288,7 @@ func sleepOrDone(ctx context.Context, d time.Duration) bool {
 	}
 }
 
-// Reads the reply to the binary ping. TCP may deliver it in pieces, so it reads on while what has arrived can still be the beginning of a binary frame
+// Reads the reply to the binary ping. TCP may deliver it in pieces, so it reads on while what has arrived can still be the beginning of a binary frame, or of a line of text
 func readProbeReply(conn net.Conn, buf []byte) (int, error) {
 	count := 0
 	for {
@@ -297,8 +300,11 @@ func readProbeReply(conn net.Conn, buf []byte) (int, error) {
 		header := make([]byte, 4)
 		copy(header, buf[:count])
 		length := binary.LittleEndian.Uint32(header)
-		if length > uint32(len(buf)-4) {
-			return count, nil // Not a frame which we would expect, most likely text
+		if length > uint32(len(buf)-4) { // Not a frame which we would expect, most likely text
+			if count == len(buf) || bytes.IndexByte(buf[:count], '\n') >= 0 {
+				return count, nil
+			}
+			continue
 		}
 		if count >= 4 && uint32(count) >= 4+length {
 			return count, nil
-- 
2.43.0

