From 93e4e631266a9238b3b244be7e3bf65c47b21ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:01 +0000
Subject: [PATCH 01/65] fix: compare hash sets with the distinct items of a
 slice

SetEquals, IsSupersetOf, IsProperSupersetOf and SymmetricExceptWith used the
length of the slice, or visited repeated items repeatedly, so slices with
duplicate items gave wrong results: {1,2} was equal to [1,1].
---
 sttp/hashset/HashSet.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..ed4a633 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -131,7 +131,8 @@ func (hs HashSet[T]) SymmetricExceptWith(other []T) {
 		return
 	}
 
-	for _, v := range other {
+	// Slice may contain duplicates, each distinct item should only be evaluated once
+	for v := range NewHashSet(other) {
 		if !hs.Remove(v) {
 			hs.Add(v)
 		}
@@ -182,11 +183,17 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
+	return hs.SetEqualsSet(NewHashSet(other))
+}
+
+// SetEqualsSet determines whether a set and the specified set contain the same elements.
+// Returns true if the set is equal to other set; otherwise, false.
+func (hs HashSet[T]) SetEqualsSet(other HashSet[T]) bool {
 	if len(hs) != len(other) {
 		return false
 	}
 
-	for _, v := range other {
+	for v := range other {
 		if !hs.Contains(v) {
 			return false
 		}
@@ -195,12 +202,6 @@ func (hs HashSet[T]) SetEquals(other []T) bool {
 	return true
 }
 
-// SetEqualsSet determines whether a set and the specified set contain the same elements.
-// Returns true if the set is equal to other set; otherwise, false.
-func (hs HashSet[T]) SetEqualsSet(other HashSet[T]) bool {
-	return hs.SetEquals(other.Keys())
-}
-
 // Overlaps determines whether the current set and a specified slice share common elements.
 // Returns true if the current set and other slice items share at least one common element; otherwise, false.
 func (hs HashSet[T]) Overlaps(other []T) bool {
@@ -287,11 +288,7 @@ func (hs HashSet[T]) IsSupersetOf(other []T) bool {
 		return true
 	}
 
-	// If slice has more elements than set, then it can't be a superset
-	if len(other) > len(hs) {
-		return false
-	}
-
+	// Slice may contain duplicates, so its length says nothing about being a superset
 	for _, v := range other {
 		if !hs.Contains(v) {
 			return false
@@ -320,8 +317,8 @@ func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
 		return true // Set has at least one element, based on prior check
 	}
 
-	// If slice has more or equal elements than set, then it can't be a proper superset
-	if len(other) >= len(hs) {
+	// If slice has more or equal distinct elements than set, then it can't be a proper superset
+	if len(NewHashSet(other)) >= len(hs) {
 		return false
 	}
 
-- 
2.43.0


From 32036adb8cd435eacb65886e1ba8c49dd34a9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:39 +0000
Subject: [PATCH 02/65] fix: treat a thread as running from the moment its
 start is accepted

---
 sttp/thread/Thread.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..b9abcbc 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -31,9 +31,10 @@ import (
 
 // Thread represents a thread-like wrapper for a Go routine.
 type Thread struct {
-	exec    func()
-	mutex   sync.Mutex
-	running abool.AtomicBool
+	exec       func()
+	mutex      sync.Mutex
+	startMutex sync.Mutex
+	running    abool.AtomicBool
 }
 
 // NewThread creates a new Thread.
@@ -47,7 +48,11 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	thread.startMutex.Lock()
+	defer thread.startMutex.Unlock()
+
+	// Thread is considered running as soon as its start has been accepted
+	if !thread.running.SetToIf(false, true) {
 		panic("thread is already running")
 	}
 
@@ -73,7 +78,12 @@ func (thread *Thread) TryStart() bool {
 
 // Join blocks the calling thread until this Thread terminates.
 func (thread *Thread) Join() {
-	if thread.exec == nil || thread.running.IsNotSet() {
+	// Let any start operation complete, otherwise thread could be missed
+	thread.startMutex.Lock()
+	running := thread.running.IsSet()
+	thread.startMutex.Unlock()
+
+	if !running {
 		return
 	}
 
@@ -88,9 +98,8 @@ func (thread *Thread) IsRunning() bool {
 }
 
 func (thread *Thread) run() {
-	defer thread.running.UnSet()
 	defer thread.mutex.Unlock()
+	defer thread.running.UnSet()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From a51ce64c52b4bdec928db4237a592b97bc21047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:46 +0000
Subject: [PATCH 03/65] fix: send each server command whole, whatever its size
 and whoever else is sending

---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..d6ed836 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1497,6 +1498,10 @@ func (ds *DataSubscriber) SendServerCommandWithMessage(commandCode ServerCommand
 
 // SendServerCommandWithPayload sends a server command code to the DataPublisher along with the specified data payload.
 func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommandEnum, data []byte) {
+	// Commands can be sent from any thread, but share one buffer and must not be interleaved
+	ds.writeMutex.Lock()
+	defer ds.writeMutex.Unlock()
+
 	if ds.connected.IsNotSet() {
 		return
 	}
@@ -1505,7 +1510,7 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
 	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
-- 
2.43.0


From 4b20941edfb7fb69a8b9861afdaea2631f1c806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 04/65] fix: make connecting, reconnecting, disconnecting and
 closing safe to overlap

A disconnect could be dropped or act on the next connection, a canceled
connector stayed canceled for the next Dial, a pending retry wait was
stopped without waking its waiter, and termination was reported for
connections that were never announced. Every connect and disconnect now
runs under the connect action mutex, waits for an active disconnect, and
carries the cancellation it started with. The retry counter counts
retries only and its delay no longer overflows.
---
 sttp/Subscriber.go                    |  10 +-
 sttp/transport/DataSubscriber.go      | 300 +++++++++++++++++---------
 sttp/transport/SubscriberConnector.go | 195 +++++++++--------
 3 files changed, 310 insertions(+), 195 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..a646c35 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -250,6 +250,7 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
+	ds.ConnectionEstablishedCallback = sb.handleConnect
 	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
@@ -262,9 +263,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	var err error
 
 	// Connect and subscribe to publisher
+	con.ResetConnection()
+
 	switch con.Connect(ds) {
-	case transport.ConnectStatus.Success:
-		sb.handleConnect()
 	case transport.ConnectStatus.Failed:
 		err = errors.New("all connection attempts failed")
 	case transport.ConnectStatus.Canceled:
@@ -506,10 +507,7 @@ func (sb *Subscriber) handleConnect() {
 }
 
 func (sb *Subscriber) handleReconnect(ds *transport.DataSubscriber) {
-	if ds.IsConnected() {
-		sb.handleConnect()
-	} else {
-		ds.Disconnect()
+	if !ds.IsConnected() {
 		sb.StatusMessage("Connection retry attempts exceeded.")
 	}
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index d6ed836..524b4ba 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -45,6 +45,11 @@ import (
 	"github.com/tevino/abool/v2"
 )
 
+var (
+	errAlreadyConnected = errors.New("subscriber is already connected; disconnect first")
+	errAlreadyListening = errors.New("subscriber is listening for connections; direct connections disallowed")
+)
+
 // DataSubscriber represents a subscription for an STTP connection.
 type DataSubscriber struct {
 	subscription SubscriptionInfo
@@ -72,11 +77,13 @@ type DataSubscriber struct {
 
 	connectActionMutex          sync.Mutex
 	connectionTerminationThread *thread.Thread
+	connectionAnnounced         bool
 
 	disconnectThread      *thread.Thread
 	disconnectThreadMutex sync.Mutex
+	disconnectChanged     *sync.Cond
+	disconnectRequested   bool
 	disconnecting         abool.AtomicBool
-	disconnected          abool.AtomicBool
 	disposing             abool.AtomicBool
 
 	// Statistics counters
@@ -195,6 +202,8 @@ func NewDataSubscriber() *DataSubscriber {
 
 	ds.validated.Set()
 
+	ds.disconnectChanged = sync.NewCond(&ds.disconnectThreadMutex)
+
 	ds.connectionTerminationThread = thread.NewThread(func() {
 		ds.disconnect(false, true, false)
 	})
@@ -320,56 +329,90 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
-	// User requests to connection are not an auto-reconnect attempt
-	return ds.connect(hostName, port, false)
+	// User requests to connect are not an auto-reconnect attempt
+	ds.connector.ResetConnection()
+	return ds.connect(hostName, port, ds.connector.currentSequence())
 }
 
-func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting bool) error {
+func (ds *DataSubscriber) connect(hostName string, port uint16, sequence uint32) error {
 	if ds.connected.IsSet() {
-		return errors.New("subscriber is already connected; disconnect first")
+		return errAlreadyConnected
 	}
 
 	if ds.listening.IsSet() {
-		return errors.New("subscriber is listening for connections; direct connections disallowed")
+		return errAlreadyListening
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
-
-	if disconnectThread != nil {
-		disconnectThread.Join()
+	canceled := func() bool {
+		return ds.connector.isCanceled(sequence) || ds.disposing.IsSet()
 	}
 
 	// Let any pending connect or disconnect operation complete before new connect,
 	// this prevents destruction disconnect before connection is completed
-	ds.connectActionMutex.Lock()
+	if !ds.beginConnectAction(canceled) {
+		return errors.New("connection canceled")
+	}
+
 	defer ds.connectActionMutex.Unlock()
 
-	var err error
+	// Another thread may have connected or started listening while waiting
+	if ds.connected.IsSet() {
+		return errAlreadyConnected
+	}
+
+	if ds.listening.IsSet() {
+		return errAlreadyListening
+	}
 
 	// Initialize connection state
 	ds.setupConnection()
 
-	if !autoReconnecting {
-		ds.connector.ResetConnection()
-	}
-
 	ds.connector.connectionRefused.UnSet()
 
 	// TODO: Add TLS implementation options
 	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
 
-	if err == nil {
-		ds.establishConnection(conn, false)
+	if err != nil {
+		return err
 	}
 
-	return err
+	if canceled() {
+		conn.Close()
+		return errors.New("connection canceled")
+	}
+
+	ds.establishConnection(conn, false)
+
+	return nil
+}
+
+// beginConnectAction waits for any active disconnect to complete and acquires the connect action
+// mutex. Method returns false, without acquiring the mutex, when the connect action is abandoned.
+func (ds *DataSubscriber) beginConnectAction(abandoned func() bool) bool {
+	for {
+		ds.disconnectThreadMutex.Lock()
+
+		for ds.disconnecting.IsSet() && !abandoned() {
+			ds.disconnectChanged.Wait()
+		}
+
+		ds.disconnectThreadMutex.Unlock()
+		ds.connectActionMutex.Lock()
+
+		if abandoned() {
+			ds.connectActionMutex.Unlock()
+			return false
+		}
+
+		if ds.disconnecting.IsNotSet() {
+			return true
+		}
+
+		ds.connectActionMutex.Unlock()
+	}
 }
 
 func (ds *DataSubscriber) setupConnection() {
-	ds.disconnected.UnSet()
 	ds.subscribed.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
@@ -407,6 +450,8 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 	ds.connected.Set()
 	ds.lastMissingCacheWarning = 0
 
+	ds.connectionAnnounced = true
+
 	ds.commandChannelResponseThread.Start()
 	ds.sendOperationalModes()
 
@@ -427,28 +472,36 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	if ds.connected.IsSet() {
-		return errors.New("subscriber is already connected; disconnect first")
+		return errAlreadyConnected
 	}
 
 	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
+	if !ds.beginConnectAction(ds.disposing.IsSet) {
+		return errors.New("subscriber has been disposed; cannot listen")
+	}
 
-	if disconnectThread != nil {
-		disconnectThread.Join()
+	defer ds.connectActionMutex.Unlock()
+
+	// Another thread may have connected or started listening while waiting
+	if ds.listening.IsSet() {
+		return errors.New("subscriber is already listening; disconnect first")
 	}
 
-	var err error
+	if ds.connected.IsSet() {
+		return errAlreadyConnected
+	}
 
 	// TODO: Add TLS implementation options
-	ds.listeningSocket, err = net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
 
 	if err != nil {
 		return err
 	}
 
-	ds.listeningSocketAcceptThread = thread.NewThread(ds.runListeningSocketAcceptThread)
+	ds.listeningSocket = listeningSocket
+	ds.listeningSocketAcceptThread = thread.NewThread(func() {
+		ds.runListeningSocketAcceptThread(listeningSocket)
+	})
 	ds.listening.Set()
 	ds.listeningSocketAcceptThread.Start()
 
@@ -578,8 +631,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
 
-	ds.disconnecting.Set()
-
 	if ds.dataChannelSocket != nil {
 		if err := ds.dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
@@ -589,16 +640,10 @@ func (ds *DataSubscriber) Unsubscribe() {
 	if ds.dataChannelResponseThread != nil {
 		ds.dataChannelResponseThread.Join()
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
 func (ds *DataSubscriber) Disconnect() {
-	if ds.disconnecting.IsSet() {
-		return
-	}
-
 	// Disconnect method executes shutdown on a separate thread without stopping to prevent
 	// issues where user may call disconnect method from a dispatched event thread. Also,
 	// user requests to disconnect are not an auto-reconnect attempt and should initiate
@@ -607,63 +652,124 @@ func (ds *DataSubscriber) Disconnect() {
 }
 
 func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
-	// Check if disconnect thread is running or subscriber has already disconnected
+	ds.disconnectThreadMutex.Lock()
+
+	if !autoReconnecting {
+		ds.connector.interrupt()
+	}
+
+	if includeListener {
+		ds.listening.UnSet()
+	}
+
+	// Let any waiting connect operation know that it may have been canceled
+	ds.disconnectChanged.Broadcast()
+
+	disconnectThread := ds.disconnectThread
+
 	if ds.disconnecting.IsSet() {
-		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
+		// Disconnect thread is already active, user requests are handled when its current work is done
+		if !autoReconnecting {
+			ds.disconnectRequested = true
 		}
+	} else {
+		// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
+		ds.disconnecting.Set()
+		ds.resetConnectionState()
 
-		ds.disconnectThreadMutex.Lock()
-		disconnectThread := ds.disconnectThread
-		ds.disconnectThreadMutex.Unlock()
+		disconnectThread = thread.NewThread(func() {
+			ds.runDisconnectThread(autoReconnecting, includeListener)
+		})
 
-		if joinThread && ds.disconnected.IsNotSet() && disconnectThread != nil {
-			disconnectThread.Join()
-		}
+		ds.disconnectThread = disconnectThread
+		disconnectThread.Start()
+	}
 
-		return
+	ds.disconnectThreadMutex.Unlock()
+
+	if joinThread {
+		disconnectThread.Join()
 	}
+}
 
-	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
-	ds.disconnecting.Set()
+func (ds *DataSubscriber) resetConnectionState() {
 	ds.connected.UnSet()
 	ds.validated.UnSet()
+	ds.subscribed.UnSet()
+}
 
-	if includeListener {
-		ds.listening.UnSet()
+func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
+	for {
+		ds.shutDown(includeListener)
+
+		ds.disconnectThreadMutex.Lock()
+
+		if !ds.disconnectRequested {
+			break
+		}
+
+		// User requested a disconnect while this one was active
+		ds.disconnectRequested = false
+		autoReconnecting = false
+		includeListener = true
+		ds.disconnectThreadMutex.Unlock()
 	}
 
-	ds.subscribed.UnSet()
+	// Disconnect complete
+	ds.disconnecting.UnSet()
+	ds.disconnectChanged.Broadcast()
 
-	disconnectThread := thread.NewThread(func() {
-		ds.runDisconnectThread(autoReconnecting, includeListener)
-	})
+	if autoReconnecting {
+		// A user request to disconnect from here on cancels any reconnect
+		atomic.StoreUint32(&ds.connector.reconnectSequence, ds.connector.currentSequence())
+	}
 
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread.Start()
-	ds.disconnectThread = disconnectThread
 	ds.disconnectThreadMutex.Unlock()
 
-	if joinThread {
-		disconnectThread.Join()
+	if autoReconnecting {
+		// Handling auto-connect callback separately from connection terminated callback
+		// since they serve two different use cases and current implementation does not
+		// support multiple callback registrations
+		ds.BeginCallbackSync()
+		autoReconnectCallback := ds.AutoReconnectCallback
+		ds.EndCallbackSync()
+
+		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+			autoReconnectCallback()
+		}
 	}
 }
 
-func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
-	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
-	if !autoReconnecting {
-		ds.connector.Cancel()
-		ds.connectionTerminationThread.Join()
+func (ds *DataSubscriber) shutDown(includeListener bool) {
+	if includeListener {
+		// Let any pending listen operation complete before closing listening socket
 		ds.connectActionMutex.Lock()
-	}
+		listeningSocket := ds.listeningSocket
+		listeningSocketAcceptThread := ds.listeningSocketAcceptThread
+		ds.listening.UnSet()
+		ds.listeningSocket = nil
+		ds.listeningSocketAcceptThread = nil
+		ds.connectActionMutex.Unlock()
 
-	// Release queues and close sockets so that threads can shut down gracefully
-	if includeListener && ds.listeningSocket != nil {
-		if err := ds.listeningSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+		if listeningSocket != nil {
+			if err := listeningSocket.Close(); err != nil {
+				ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+			}
+		}
+
+		// Accept thread must complete before connection is closed since it may be establishing one
+		if listeningSocketAcceptThread != nil {
+			listeningSocketAcceptThread.Join()
 		}
 	}
 
+	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.connectActionMutex.Lock()
+	defer ds.connectActionMutex.Unlock()
+
+	ds.resetConnectionState()
+
+	// Release queues and close sockets so that threads can shut down gracefully
 	if ds.commandChannelSocket != nil {
 		if err := ds.commandChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
@@ -677,11 +783,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
-	}
-
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
@@ -692,33 +793,25 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		ds.dataChannelResponseThread = nil
 	}
 
-	// Notify consumers of disconnect
-	ds.BeginCallbackSync()
-
-	if ds.ConnectionTerminatedCallback != nil {
-		ds.ConnectionTerminatedCallback()
-	}
+	// Make sure no command being sent, nor any pending connection termination, can affect next connection
+	ds.writeMutex.Lock()
+	ds.commandChannelSocket = nil
+	ds.writeMutex.Unlock()
 
-	ds.EndCallbackSync()
+	ds.dataChannelSocket = nil
+	ds.connectionTerminationThread.Join()
 
-	// Disconnect complete
-	ds.disconnected.Set()
-	ds.disconnecting.UnSet()
+	// Notify consumers of disconnect
+	if ds.connectionAnnounced {
+		ds.connectionAnnounced = false
 
-	if autoReconnecting {
-		// Handling auto-connect callback separately from connection terminated callback
-		// since they serve two different use cases and current implementation does not
-		// support multiple callback registrations
 		ds.BeginCallbackSync()
-
-		if ds.AutoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			ds.AutoReconnectCallback()
-		}
-
+		connectionTerminatedCallback := ds.ConnectionTerminatedCallback
 		ds.EndCallbackSync()
 
-	} else {
-		ds.connectActionMutex.Unlock()
+		if connectionTerminatedCallback != nil {
+			connectionTerminatedCallback()
+		}
 	}
 }
 
@@ -750,9 +843,9 @@ func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	ds.EndCallbackSync()
 }
 
-func (ds *DataSubscriber) runListeningSocketAcceptThread() {
+func (ds *DataSubscriber) runListeningSocketAcceptThread(listeningSocket net.Listener) {
 	for ds.listening.IsSet() {
-		conn, err := ds.listeningSocket.Accept()
+		conn, err := listeningSocket.Accept()
 
 		if err != nil {
 			if ds.disconnecting.IsNotSet() {
@@ -787,7 +880,10 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 
 		// Let any pending connect or disconnect operation complete before new connect,
 		// this prevents destruction disconnect before connection is completed
-		ds.connectActionMutex.Lock()
+		if !ds.beginConnectAction(ds.listening.IsNotSet) {
+			conn.Close()
+			break
+		}
 
 		// Initialize connection state
 		ds.setupConnection()
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..f96fa9f 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -29,6 +29,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/sttp/goapi/sttp/thread"
@@ -68,10 +69,12 @@ type SubscriberConnector struct {
 	connectAttempt       int32
 	connectionRefused    abool.AtomicBool
 	cancel               abool.AtomicBool
+	cancelCount          uint32
+	reconnectSequence    uint32
 	reconnectThread      *thread.Thread
 	reconnectThreadMutex sync.Mutex
-	waitTimer            *time.Timer
-	waitTimerMutex       sync.Mutex
+	interrupted          chan struct{}
+	interruptedMutex     sync.Mutex
 
 	assigningHandlerMutex sync.RWMutex
 }
@@ -83,71 +86,60 @@ func (ds *DataSubscriber) autoReconnect() {
 		return
 	}
 
-	// Make sure to wait on any running reconnect to complete...
+	// Only connections initiated by this connector can be reestablished
+	if !sc.AutoReconnect || ds.listening.IsSet() {
+		return
+	}
+
+	sequence := atomic.LoadUint32(&sc.reconnectSequence)
+
 	sc.reconnectThreadMutex.Lock()
-	reconnectThread := sc.reconnectThread
-	sc.reconnectThreadMutex.Unlock()
+	defer sc.reconnectThreadMutex.Unlock()
 
-	if reconnectThread != nil {
-		reconnectThread.Join()
-	}
+	previousThread := sc.reconnectThread
+
+	sc.reconnectThread = thread.NewThread(func() {
+		// Make sure to wait on any running reconnect to complete...
+		if previousThread != nil {
+			previousThread.Join()
+			previousThread = nil
+		}
 
-	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
-		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
+		if sc.retriesExhausted() {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
 			return
 		}
 
-		sc.waitForRetry()
-
-		if sc.cancel.IsSet() || ds.disposing.IsSet() {
-			return
-		}
+		sc.waitForRetry(sequence)
 
-		if sc.connect(ds, true) == ConnectStatus.Canceled {
+		if sc.connect(ds, true, sequence) == ConnectStatus.Canceled {
 			return
 		}
 
 		// Notify the user that reconnect attempt was completed.
 		sc.BeginCallbackSync()
+		reconnectCallback := sc.ReconnectCallback
+		sc.EndCallbackSync()
 
-		if sc.cancel.IsNotSet() && sc.ReconnectCallback != nil {
-			sc.ReconnectCallback(ds)
+		if !sc.isCanceled(sequence) && reconnectCallback != nil {
+			reconnectCallback(ds)
 		}
-
-		sc.EndCallbackSync()
 	})
 
-	sc.reconnectThreadMutex.Lock()
-	sc.reconnectThread = reconnectThread
-	sc.reconnectThreadMutex.Unlock()
-
-	reconnectThread.Start()
+	sc.reconnectThread.Start()
 }
 
-func (sc *SubscriberConnector) waitForRetry() {
+func (sc *SubscriberConnector) waitForRetry(sequence uint32) {
 	// Apply exponential back-off algorithm for retry attempt delays
-	var exponent float64
-
-	if sc.connectAttempt > 13 {
-		exponent = 12
-	} else {
-		exponent = float64(sc.connectAttempt)
-	}
-
-	var retryInterval int32
+	retryInterval := float64(sc.RetryInterval) * math.Pow(2, float64(sc.connectAttempt))
 
-	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
-	}
-
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
+	if retryInterval > float64(sc.MaxRetryInterval) {
+		retryInterval = float64(sc.MaxRetryInterval)
 	}
 
 	// Notify the user that we are attempting to reconnect.
@@ -168,90 +160,119 @@ func (sc *SubscriberConnector) waitForRetry() {
 
 	if retryInterval > 0 {
 		message.WriteString("Attempting to reconnect in ")
-		message.WriteString(fmt.Sprintf("%.2f", float64(retryInterval)/1000.0))
+		message.WriteString(fmt.Sprintf("%.2f", retryInterval/1000.0))
 		message.WriteString(" seconds...")
 	} else {
-		retryInterval = sc.RetryInterval
 		message.WriteString("Attempting to reconnect...")
 	}
 
 	sc.dispatchErrorMessage(message.String())
 
-	waitTimer := time.NewTimer(time.Duration(retryInterval) * time.Millisecond)
+	if retryInterval <= 0 {
+		return
+	}
+
+	sc.interruptedMutex.Lock()
+
+	if sc.isCanceled(sequence) {
+		sc.interruptedMutex.Unlock()
+		return
+	}
+
+	if sc.interrupted == nil {
+		sc.interrupted = make(chan struct{})
+	}
 
-	sc.waitTimerMutex.Lock()
-	sc.waitTimer = waitTimer
-	sc.waitTimerMutex.Unlock()
+	interrupted := sc.interrupted
+	sc.interruptedMutex.Unlock()
 
-	<-waitTimer.C
+	waitTimer := time.NewTimer(time.Duration(retryInterval) * time.Millisecond)
+	defer waitTimer.Stop()
+
+	select {
+	case <-waitTimer.C:
+	case <-interrupted:
+	}
 }
 
 // Connect initiates a connection sequence for a DataSubscriber
 func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
-	if sc.cancel.IsSet() {
-		return ConnectStatus.Canceled
-	}
-
-	return sc.connect(ds, false)
+	return sc.connect(ds, false, sc.currentSequence())
 }
 
-func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool) ConnectStatusEnum {
+func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool, sequence uint32) ConnectStatusEnum {
 	if sc.AutoReconnect {
 		ds.BeginCallbackAssignment()
 		ds.AutoReconnectCallback = ds.autoReconnect
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
-
-	for ds.disposing.IsNotSet() {
-		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
-			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
-			break
+	for {
+		if sc.isCanceled(sequence) || ds.disposing.IsSet() {
+			return ConnectStatus.Canceled
 		}
 
-		sc.connectAttempt++
+		// Initial connection attempt is not a retry
+		if autoReconnecting {
+			if sc.retriesExhausted() {
+				sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
+				return ConnectStatus.Failed
+			}
 
-		if ds.disposing.IsSet() {
-			return ConnectStatus.Canceled
+			sc.connectAttempt++
 		}
 
-		if ds.connect(sc.Hostname, sc.Port, autoReconnecting) == nil {
-			break
+		err := ds.connect(sc.Hostname, sc.Port, sequence)
+
+		if err == nil {
+			return ConnectStatus.Success
 		}
 
-		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
-			sc.waitForRetry()
+		// Retrying is of no use when subscriber is already in use
+		if err == errAlreadyConnected || err == errAlreadyListening {
+			return ConnectStatus.Failed
+		}
 
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
+		if sc.RetryInterval > 0 && !sc.retriesExhausted() {
+			sc.waitForRetry(sequence)
 		}
-	}
 
-	if ds.disposing.IsSet() {
-		return ConnectStatus.Canceled
+		autoReconnecting = true
 	}
+}
 
-	if ds.IsConnected() {
-		return ConnectStatus.Success
-	}
+func (sc *SubscriberConnector) retriesExhausted() bool {
+	return sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries
+}
 
-	return ConnectStatus.Failed
+// currentSequence gets the identifier for a connection sequence that is being started. The
+// sequence is considered canceled as soon as any cancellation has occurred since its start.
+func (sc *SubscriberConnector) currentSequence() uint32 {
+	return atomic.LoadUint32(&sc.cancelCount)
 }
 
-// Cancel stops all current and future connection sequences.
-func (sc *SubscriberConnector) Cancel() {
-	sc.cancel.Set()
+func (sc *SubscriberConnector) isCanceled(sequence uint32) bool {
+	return sc.cancel.IsSet() || atomic.LoadUint32(&sc.cancelCount) != sequence
+}
 
-	sc.waitTimerMutex.Lock()
-	waitTimer := sc.waitTimer
-	sc.waitTimerMutex.Unlock()
+// interrupt cancels all current and future connection sequences without waiting on them.
+func (sc *SubscriberConnector) interrupt() {
+	sc.interruptedMutex.Lock()
+	defer sc.interruptedMutex.Unlock()
+
+	sc.cancel.Set()
+	atomic.AddUint32(&sc.cancelCount, 1)
 
-	if waitTimer != nil {
-		waitTimer.Stop()
+	// End any active wait for a retry
+	if sc.interrupted != nil {
+		close(sc.interrupted)
+		sc.interrupted = nil
 	}
+}
+
+// Cancel stops all current and future connection sequences.
+func (sc *SubscriberConnector) Cancel() {
+	sc.interrupt()
 
 	sc.reconnectThreadMutex.Lock()
 	reconnectThread := sc.reconnectThread
-- 
2.43.0


From 638bc826e23f92aafeff87b60d0e6253832fb80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:37 +0000
Subject: [PATCH 05/65] fix: run callbacks without holding the assignment locks

Setting a receiver, or logging, from inside a callback deadlocked, and a
replaced message logger only took effect on the next Dial or Listen.
---
 sttp/Subscriber.go                    | 77 +++++++++++++-------------
 sttp/transport/DataSubscriber.go      | 80 +++++++++++++--------------
 sttp/transport/SubscriberConnector.go |  8 +--
 3 files changed, 81 insertions(+), 84 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index a646c35..8a5c36d 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -241,12 +241,11 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	con.BeginCallbackAssignment()
 	ds.BeginCallbackAssignment()
-	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -256,7 +255,6 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
-	sb.endCallbackSync()
 	con.EndCallbackAssignment()
 	ds.EndCallbackAssignment()
 
@@ -328,11 +326,10 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
 
 	ds.BeginCallbackAssignment()
-	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
@@ -341,7 +338,6 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
-	sb.endCallbackSync()
 	ds.EndCallbackAssignment()
 
 	// Listen for publisher connection
@@ -466,36 +462,36 @@ func (sb *Subscriber) endCallbackAssignment() {
 // StatusMessage executes the defined status message logger callback.
 func (sb *Subscriber) StatusMessage(message string) {
 	sb.beginCallbackSync()
+	statusMessageLogger := sb.statusMessageLogger
+	sb.endCallbackSync()
 
-	if sb.statusMessageLogger != nil {
-		sb.statusMessageLogger(message)
+	if statusMessageLogger != nil {
+		statusMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // ErrorMessage executes the defined error message logger callback.
 func (sb *Subscriber) ErrorMessage(message string) {
 	sb.beginCallbackSync()
+	errorMessageLogger := sb.errorMessageLogger
+	sb.endCallbackSync()
 
-	if sb.errorMessageLogger != nil {
-		sb.errorMessageLogger(message)
+	if errorMessageLogger != nil {
+		errorMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
 	sb.beginCallbackSync()
+	connectionEstablishedReceiver := sb.connectionEstablishedReceiver
+	sb.endCallbackSync()
 
-	if sb.connectionEstablishedReceiver != nil {
-		sb.connectionEstablishedReceiver()
+	if connectionEstablishedReceiver != nil {
+		connectionEstablishedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
@@ -526,13 +522,13 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	sb.showMetadataSummary(dataSet, parseStarted)
 
 	sb.beginCallbackSync()
+	metadataReceiver := sb.metadataReceiver
+	sb.endCallbackSync()
 
-	if sb.metadataReceiver != nil {
-		sb.metadataReceiver(dataSet)
+	if metadataReceiver != nil {
+		metadataReceiver(dataSet)
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
@@ -651,23 +647,23 @@ func (sb *Subscriber) showMetadataSummary(dataSet *data.DataSet, parseStarted ti
 
 func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	sb.beginCallbackSync()
+	dataStartTimeReceiver := sb.dataStartTimeReceiver
+	sb.endCallbackSync()
 
-	if sb.dataStartTimeReceiver != nil {
-		sb.dataStartTimeReceiver(startTime.ToTime())
+	if dataStartTimeReceiver != nil {
+		dataStartTimeReceiver(startTime.ToTime())
 	}
-
-	sb.endCallbackSync()
 }
 
 func (sb *Subscriber) handleConfigurationChanged() {
 	sb.beginCallbackSync()
+	configurationChangedReceiver := sb.configurationChangedReceiver
+	sb.endCallbackSync()
 
-	if sb.configurationChangedReceiver != nil {
-		sb.configurationChangedReceiver()
+	if configurationChangedReceiver != nil {
+		configurationChangedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
@@ -677,12 +673,12 @@ func (sb *Subscriber) handleProcessingComplete(message string) {
 	sb.StatusMessage(message)
 
 	sb.beginCallbackSync()
+	historicalReadCompleteReceiver := sb.historicalReadCompleteReceiver
+	sb.endCallbackSync()
 
-	if sb.historicalReadCompleteReceiver != nil {
-		sb.historicalReadCompleteReceiver()
+	if historicalReadCompleteReceiver != nil {
+		historicalReadCompleteReceiver()
 	}
-
-	sb.endCallbackSync()
 }
 
 // DefaultStatusMessageLogger implements the default handler for the statusMessage callback.
@@ -752,10 +748,11 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 524b4ba..34e67b6 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -457,12 +457,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
+	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionEstablishedCallback != nil {
-		ds.ConnectionEstablishedCallback()
+	if connectionEstablishedCallback != nil {
+		connectionEstablishedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -825,22 +825,22 @@ func (ds *DataSubscriber) dispatchConnectionTerminated() {
 
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
 	ds.BeginCallbackSync()
+	statusMessageCallback := ds.StatusMessageCallback
+	ds.EndCallbackSync()
 
-	if ds.StatusMessageCallback != nil {
-		go ds.StatusMessageCallback(message)
+	if statusMessageCallback != nil {
+		go statusMessageCallback(message)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	ds.BeginCallbackSync()
+	errorMessageCallback := ds.ErrorMessageCallback
+	ds.EndCallbackSync()
 
-	if ds.ErrorMessageCallback != nil {
-		go ds.ErrorMessageCallback(message)
+	if errorMessageCallback != nil {
+		go errorMessageCallback(message)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) runListeningSocketAcceptThread(listeningSocket net.Listener) {
@@ -1127,24 +1127,24 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
 	ds.BeginCallbackSync()
+	dataStartTimeCallback := ds.DataStartTimeCallback
+	ds.EndCallbackSync()
 
-	if ds.DataStartTimeCallback != nil {
+	if dataStartTimeCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.DataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
+		dataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
 	ds.BeginCallbackSync()
+	processingCompleteCallback := ds.ProcessingCompleteCallback
+	ds.EndCallbackSync()
 
-	if ds.ProcessingCompleteCallback != nil {
-		go ds.ProcessingCompleteCallback(ds.DecodeString(data))
+	if processingCompleteCallback != nil {
+		go processingCompleteCallback(ds.DecodeString(data))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
@@ -1191,12 +1191,12 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	subscriptionUpdatedCallback := ds.SubscriptionUpdatedCallback
+	ds.EndCallbackSync()
 
-	if ds.SubscriptionUpdatedCallback != nil {
-		go ds.SubscriptionUpdatedCallback(signalIndexCache)
+	if subscriptionUpdatedCallback != nil {
+		go subscriptionUpdatedCallback(signalIndexCache)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
@@ -1278,12 +1278,12 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 	ds.dispatchStatusMessage("Received notification from publisher that configuration has changed.")
 
 	ds.BeginCallbackSync()
+	configurationChangedCallback := ds.ConfigurationChangedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConfigurationChangedCallback != nil {
-		go ds.ConfigurationChangedCallback()
+	if configurationChangedCallback != nil {
+		go configurationChangedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
@@ -1348,15 +1348,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	newMeasurementsCallback := ds.NewMeasurementsCallback
+	ds.EndCallbackSync()
 
-	if ds.NewMeasurementsCallback != nil {
+	if newMeasurementsCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewMeasurementsCallback(measurements)
+		newMeasurementsCallback(measurements)
 	}
 
-	ds.EndCallbackSync()
-
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
 }
 
@@ -1542,14 +1542,14 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
+			newBufferBlocksCallback := ds.NewBufferBlocksCallback
+			ds.EndCallbackSync()
 
-			if ds.NewBufferBlocksCallback != nil {
+			if newBufferBlocksCallback != nil {
 				// Do not use Go routine here, processing sequence may be important.
 				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+				newBufferBlocksCallback(bufferBlockMeasurements)
 			}
-
-			ds.EndCallbackSync()
 		} else {
 			// Ensure that the list has at least as many elements as it needs to cache this measurement.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
@@ -1571,13 +1571,13 @@ func (ds *DataSubscriber) handleNotification(data []byte) {
 	ds.dispatchStatusMessage("NOTIFICATION: " + message)
 
 	ds.BeginCallbackSync()
+	notificationReceivedCallback := ds.NotificationReceivedCallback
+	ds.EndCallbackSync()
 
-	if ds.NotificationReceivedCallback != nil {
-		go ds.NotificationReceivedCallback(message)
+	if notificationReceivedCallback != nil {
+		go notificationReceivedCallback(message)
 	}
 
-	ds.EndCallbackSync()
-
 	// Send confirmation of receipt of the notification with 4-byte hash
 	ds.SendServerCommandWithPayload(ServerCommand.ConfirmNotification, data[:4])
 }
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index f96fa9f..71c4114 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -291,12 +291,12 @@ func (sc *SubscriberConnector) ResetConnection() {
 
 func (sc *SubscriberConnector) dispatchErrorMessage(message string) {
 	sc.BeginCallbackSync()
+	errorMessageCallback := sc.ErrorMessageCallback
+	sc.EndCallbackSync()
 
-	if sc.ErrorMessageCallback != nil {
-		go sc.ErrorMessageCallback(message)
+	if errorMessageCallback != nil {
+		go errorMessageCallback(message)
 	}
-
-	sc.EndCallbackSync()
 }
 
 // BeginCallbackAssignment informs SubscriberConnector that a callback change has been initiated.
-- 
2.43.0


From 83b418688da2a7d5600cb49fbfeea71c124e46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:31 +0000
Subject: [PATCH 06/65] fix: subscribe once the connection is validated, on
 every connection

Only the first connection of a subscriber was treated as validated from
the start, so its first response was never checked, and on every later
connection a subscription requested at connection time was dropped.
---
 sttp/transport/DataSubscriber.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 34e67b6..9dab24a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -61,6 +61,9 @@ type DataSubscriber struct {
 	listening    abool.AtomicBool
 	subscribed   abool.AtomicBool
 
+	// subscribePending is set when subscription should be requested once connection is validated
+	subscribePending abool.AtomicBool
+
 	listeningSocket              net.Listener
 	listeningSocketAcceptThread  *thread.Thread
 	commandChannelSocket         net.Conn
@@ -200,8 +203,6 @@ func NewDataSubscriber() *DataSubscriber {
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
 	}
 
-	ds.validated.Set()
-
 	ds.disconnectChanged = sync.NewCond(&ds.disconnectThreadMutex)
 
 	ds.connectionTerminationThread = thread.NewThread(func() {
@@ -413,7 +414,9 @@ func (ds *DataSubscriber) beginConnectAction(abandoned func() bool) bool {
 }
 
 func (ds *DataSubscriber) setupConnection() {
+	ds.validated.UnSet()
 	ds.subscribed.UnSet()
+	ds.subscribePending.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
@@ -515,7 +518,12 @@ func (ds *DataSubscriber) Subscribe() error {
 	}
 
 	if ds.Version >= 2 && ds.validated.IsNotSet() {
-		return errors.New("subscriber is not validated; cannot subscribe")
+		// Request subscription as soon as connection has been validated
+		ds.subscribePending.Set()
+
+		if ds.validated.IsNotSet() || !ds.subscribePending.SetToIf(true, false) {
+			return nil
+		}
 	}
 
 	// Make sure to unsubscribe before attempting another
@@ -625,6 +633,8 @@ func (ds *DataSubscriber) Subscribe() error {
 
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
 func (ds *DataSubscriber) Unsubscribe() {
+	ds.subscribePending.UnSet()
+
 	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
 		return
 	}
@@ -1009,6 +1019,12 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 		}
 
 		ds.validated.Set()
+
+		if ds.subscribePending.SetToIf(true, false) {
+			if err := ds.Subscribe(); err != nil {
+				ds.dispatchErrorMessage("Failed to subscribe: " + err.Error())
+			}
+		}
 	}
 
 	switch responseCode {
-- 
2.43.0


From afe4f594ca5d21e3d347c29d8846da995ed97251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:05 +0000
Subject: [PATCH 07/65] fix: keep track of the UDP data channel across
 resubscribe and disconnect

A subscription requested again before it was acknowledged, or while
disconnecting, left a UDP socket open, and the closed socket was closed
again when disconnecting.
---
 sttp/transport/DataSubscriber.go | 67 +++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 9dab24a..1a61b0f 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -74,6 +74,7 @@ type DataSubscriber struct {
 	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
+	dataChannelMutex             sync.Mutex
 	connectionID                 string
 
 	assigningHandlerMutex sync.RWMutex
@@ -578,15 +579,13 @@ func (ds *DataSubscriber) Subscribe() error {
 			return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
 		}
 
-		ds.dataChannelSocket, err = net.ListenUDP("udp", udpAddr)
+		// Previous subscription may not have been acknowledged yet
+		ds.closeDataChannel()
 
-		if err != nil {
+		if err = ds.openDataChannel(udpAddr); err != nil {
 			return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
 		}
 
-		ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
-		ds.dataChannelResponseThread.Start()
-
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
 		parameterBuilder.WriteString("}")
@@ -640,15 +639,49 @@ func (ds *DataSubscriber) Unsubscribe() {
 	}
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
+	ds.closeDataChannel()
+}
+
+func (ds *DataSubscriber) openDataChannel(udpAddr *net.UDPAddr) error {
+	ds.dataChannelMutex.Lock()
+	defer ds.dataChannelMutex.Unlock()
+
+	// Socket must not be opened after disconnect has closed data channel
+	if ds.connected.IsNotSet() {
+		return errors.New("subscriber is not connected")
+	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
+	dataChannelSocket, err := net.ListenUDP("udp", udpAddr)
+
+	if err != nil {
+		return err
+	}
+
+	ds.dataChannelSocket = dataChannelSocket
+	ds.dataChannelResponseThread = thread.NewThread(func() {
+		ds.runDataChannelResponseThread(dataChannelSocket)
+	})
+	ds.dataChannelResponseThread.Start()
+
+	return nil
+}
+
+func (ds *DataSubscriber) closeDataChannel() {
+	ds.dataChannelMutex.Lock()
+	dataChannelSocket := ds.dataChannelSocket
+	dataChannelResponseThread := ds.dataChannelResponseThread
+	ds.dataChannelSocket = nil
+	ds.dataChannelResponseThread = nil
+	ds.dataChannelMutex.Unlock()
+
+	if dataChannelSocket != nil {
+		if err := dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
 		}
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
+	if dataChannelResponseThread != nil {
+		dataChannelResponseThread.Join()
 	}
 }
 
@@ -786,29 +819,19 @@ func (ds *DataSubscriber) shutDown(includeListener bool) {
 		}
 	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
-	}
-
 	// Join with all threads to guarantee their completion before returning control to the caller
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
-		ds.dataChannelResponseThread = nil
-	}
+	ds.closeDataChannel()
 
 	// Make sure no command being sent, nor any pending connection termination, can affect next connection
 	ds.writeMutex.Lock()
 	ds.commandChannelSocket = nil
 	ds.writeMutex.Unlock()
 
-	ds.dataChannelSocket = nil
 	ds.connectionTerminationThread.Join()
 
 	// Notify consumers of disconnect
@@ -983,8 +1006,8 @@ func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
 
 // If the user defines a separate UDP channel for their
 // subscription, data packets get handled from this thread.
-func (ds *DataSubscriber) runDataChannelResponseThread() {
-	reader := bufio.NewReader(ds.dataChannelSocket)
+func (ds *DataSubscriber) runDataChannelResponseThread(dataChannelSocket net.Conn) {
+	reader := bufio.NewReader(dataChannelSocket)
 	buffer := make([]byte, maxPacketSize)
 
 	for ds.connected.IsSet() {
-- 
2.43.0


From eb650fe997c441dd67b9f6fa3eb04a91822a7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:12 +0000
Subject: [PATCH 08/65] fix: deliver buffer blocks complete, in order and once

Blocks were delivered without their payload, a block that filled a gap
was delivered with an extra empty block, a retransmitted block exhausted
memory, and cached blocks carried over to the next connection.
---
 sttp/transport/DataSubscriber.go | 42 ++++++++++++++------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 1a61b0f..d9f827f 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -177,7 +177,7 @@ type DataSubscriber struct {
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
-	bufferBlockCache                  []BufferBlock
+	bufferBlockCache                  map[uint32]BufferBlock
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -425,6 +425,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1527,15 +1528,16 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
 		signalIndexCacheIndex = 1
 	}
 
+	_, cached := ds.bufferBlockCache[sequenceNumber]
+
 	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
-	if bufferCacheIndex >= 0 && (bufferCacheIndex >= len(ds.bufferBlockCache) || ds.bufferBlockCache[bufferCacheIndex].Buffer == nil) {
+	if int32(sequenceNumber-ds.bufferBlockExpectedSequenceNumber) >= 0 && !cached {
 		// Send confirmation that buffer block is received
 		ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
 
@@ -1553,32 +1555,29 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		ds.signalIndexCacheMutex.Unlock()
 
 		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+
+		// Buffer must be copied since it is only valid while message is being processed
+		bufferBlockMeasurement := BufferBlock{SignalID: signalID, Buffer: append([]byte{}, data[4:]...)}
 
 		// Determine if this is the next buffer block in the sequence
 		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
-			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
-
 			// Add the buffer block measurement to the list of measurements to be published
-			bufferBlockMeasurements[0] = bufferBlockMeasurement
+			bufferBlockMeasurements := []BufferBlock{bufferBlockMeasurement}
 			ds.bufferBlockExpectedSequenceNumber++
 
-			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
-				if ds.bufferBlockCache[i].Buffer == nil {
+			// Move cached buffer block measurements to the list of measurements to be published
+			for {
+				bufferBlockMeasurement, cached = ds.bufferBlockCache[ds.bufferBlockExpectedSequenceNumber]
+
+				if !cached {
 					break
 				}
 
-				bufferBlockMeasurements[i] = ds.bufferBlockCache[i]
+				delete(ds.bufferBlockCache, ds.bufferBlockExpectedSequenceNumber)
+				bufferBlockMeasurements = append(bufferBlockMeasurements, bufferBlockMeasurement)
 				ds.bufferBlockExpectedSequenceNumber++
 			}
 
-			// Remove published buffer block measurements from the buffer block queue
-			if len(ds.bufferBlockCache) > 0 {
-				ds.bufferBlockCache = ds.bufferBlockCache[i:]
-			}
-
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
 			newBufferBlocksCallback := ds.NewBufferBlocksCallback
@@ -1590,15 +1589,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 				newBufferBlocksCallback(bufferBlockMeasurements)
 			}
 		} else {
-			// Ensure that the list has at least as many elements as it needs to cache this measurement.
+			// Cache this measurement until the ones before it are received.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
 			// transport is UDP - this use case is not expected when using a TCP only connection.
-			for i := len(ds.bufferBlockCache); i <= bufferCacheIndex; i++ {
-				ds.bufferBlockCache = append(ds.bufferBlockCache, BufferBlock{})
-			}
-
-			// Insert this buffer block into the proper location in the list
-			ds.bufferBlockCache[bufferCacheIndex] = bufferBlockMeasurement
+			ds.bufferBlockCache[sequenceNumber] = bufferBlockMeasurement
 		}
 	}
 }
-- 
2.43.0


From d0c3df5e0177ca04fcb4878a17953b44e7e6a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:14 +0000
Subject: [PATCH 09/65] fix: do not use signal index caches and base times of
 an earlier connection

Data packets received before the new connection's caches arrived were
resolved with those of the previous connection.
---
 sttp/transport/DataSubscriber.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index d9f827f..ff024a8 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -424,6 +424,14 @@ func (ds *DataSubscriber) setupConnection() {
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
 	ds.keyIVs = nil
+	ds.timeIndex = 0
+	ds.baseTimeOffsets = [2]int64{}
+
+	ds.signalIndexCacheMutex.Lock()
+	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
+	ds.cacheIndex = 0
+	ds.signalIndexCacheMutex.Unlock()
+
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
-- 
2.43.0


From d75190636cfec63bcc6c52ec5ec46c742880fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:16 +0000
Subject: [PATCH 10/65] fix: hand uncompressed metadata to its receiver as a
 copy

The receiver runs on its own thread while the read buffer is reused for
the next message, which overwrote the metadata being parsed.
---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index ff024a8..65042a1 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1167,6 +1167,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+
+			// Metadata is processed on another thread, read buffer will be reused for next message
+			data = append([]byte{}, data...)
 		}
 
 		go metadataReceivedCallback(data)
-- 
2.43.0


From ea1d408eb6d473be0b63cda8ba112b41bdd0edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:17 +0000
Subject: [PATCH 11/65] fix: send the NaN value filter setting as a key and
 value

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 65042a1..68341fa 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -564,7 +564,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From 5a8309c3d261c4f91f460b857b8a985b9c432d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:19 +0000
Subject: [PATCH 12/65] fix: return the registered metadata record from
 concurrent lookups

Two first lookups of the same signal returned different records, one of
which was not in the registry, and connecting replaced the registry while
other threads could be using it.
---
 sttp/transport/DataSubscriber.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 68341fa..b1cab0a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -305,7 +305,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
@@ -434,7 +434,12 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-	ds.measurementRegistry = sync.Map{}
+
+	// Registry may be in use by other threads, so its entries are removed instead of replacing it
+	ds.measurementRegistry.Range(func(signalID, _ any) bool {
+		ds.measurementRegistry.Delete(signalID)
+		return true
+	})
 }
 
 func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
-- 
2.43.0


From efd7149b0ba182b0b9f79506c4e52d945e62d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:48 +0000
Subject: [PATCH 13/65] fix: deliver only measurements that were parsed from a
 data packet

A packet that was out of sequence, could not be parsed, or whose signal
index cache had not arrived was delivered as that many empty or earlier
measurements, and counted in the total.
---
 sttp/transport/DataSubscriber.go | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index b1cab0a..4d42636 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1397,12 +1397,22 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	signalIndexCache := ds.signalIndexCache[cacheIndex]
 	ds.signalIndexCacheMutex.Unlock()
 
+	var parsed int
+
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+	}
+
+	// Only measurements that were received are to be provided to consumer
+	if parsed == 0 && count > 0 {
+		ds.MeasurementPool.Put(measurements)
+		return
 	}
 
+	*measurements = (*measurements)[:parsed]
+
 	ds.BeginCallbackSync()
 	newMeasurementsCallback := ds.NewMeasurementsCallback
 	ds.EndCallbackSync()
@@ -1413,10 +1423,10 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		newMeasurementsCallback(measurements)
 	}
 
-	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
+	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(parsed))
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) int {
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1431,7 +1441,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return 0
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1466,7 +1476,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return 0
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1496,7 +1506,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return 0
 	}
 
 	decoder.SequenceNumber++
@@ -1505,9 +1515,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return index
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) int {
 	if signalIndexCache.Count() == 0 {
 		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
 			// Warning message for missing signal index cache
@@ -1518,7 +1530,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 			ds.lastMissingCacheWarning = ticks.UtcNow()
 		}
 
-		return
+		return 0
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
@@ -1533,12 +1545,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return 0
 		}
 
 		index += bytesDecoded
 		measurements[i] = compactMeasurement.Measurement
 	}
+
+	return len(measurements)
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From 2b534a9811c191e276403a582694c4a0e25d2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:31 +0000
Subject: [PATCH 14/65] fix: handle malformed messages from a publisher without
 panicking

Messages too short for their fields, with sizes or counts exceeding their
data, or with unusable cipher parameters caused index out of range and
similar panics. They are now reported as errors.
---
 sttp/transport/Common.go             |  10 +++
 sttp/transport/CompactMeasurement.go |  14 ++++
 sttp/transport/DataSubscriber.go     | 111 +++++++++++++++++++--------
 sttp/transport/SignalIndexCache.go   |  10 ++-
 sttp/transport/tssc/Decoder.go       |  17 +++-
 5 files changed, 126 insertions(+), 36 deletions(-)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..cec3463 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,8 +28,10 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -41,6 +43,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("invalid initialization vector size: " + strconv.Itoa(len(iv)))
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("data size is not a multiple of the cipher block size: " + strconv.Itoa(len(data)))
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..14cdea3 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < fixedLength+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement timestamp")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 4d42636..f959736 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -870,6 +870,16 @@ func (ds *DataSubscriber) dispatchConnectionTerminated() {
 	ds.connectionTerminationThread.TryStart()
 }
 
+// hasLength determines if received data has at least the specified length, reporting an error when it does not.
+func (ds *DataSubscriber) hasLength(data []byte, length int, name string) bool {
+	if len(data) >= length {
+		return true
+	}
+
+	ds.dispatchErrorMessage("Received " + name + " from \"" + ds.connectionID + "\" that is too short to be processed: " + strconv.Itoa(len(data)) + " bytes")
+	return false
+}
+
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
 	ds.BeginCallbackSync()
 	statusMessageCallback := ds.StatusMessageCallback
@@ -1041,6 +1051,10 @@ func (ds *DataSubscriber) runDataChannelResponseThread(dataChannelSocket net.Con
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if !ds.hasLength(buffer, responseHeaderSize, "server response") {
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -1182,6 +1196,10 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 }
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if !ds.hasLength(data, 8, "data start time") {
+		return
+	}
+
 	ds.BeginCallbackSync()
 	dataStartTimeCallback := ds.DataStartTimeCallback
 	ds.EndCallbackSync()
@@ -1213,6 +1231,10 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 
 	// Get active cache index
 	if version > 1 {
+		if !ds.hasLength(data, 1, "signal index cache") {
+			return
+		}
+
 		if data[0] > 0 {
 			cacheIndex = 1
 		}
@@ -1256,7 +1278,7 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
-	if data == nil {
+	if !ds.hasLength(data, 20, "base times") {
 		return
 	}
 
@@ -1286,43 +1308,25 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	keyIVs[oddKey] = make([][]byte, 2)
 
 	// Move past active cipher index (not currently used anywhere else)
-	var index uint32 = 1
-
-	// Read even key size
-	bufferLen := binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even key
-	keyIVs[evenKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read even initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even initialization vector
-	keyIVs[evenKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][ivIndex], data[index:])
-	index += bufferLen
+	index := 1
 
-	// Read odd key size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+	// Read even key, even initialization vector, odd key and odd initialization vector
+	for _, target := range []*[]byte{&keyIVs[evenKey][keyIndex], &keyIVs[evenKey][ivIndex], &keyIVs[oddKey][keyIndex], &keyIVs[oddKey][ivIndex]} {
+		if !ds.hasLength(data, index+4, "cipher keys") {
+			return
+		}
 
-	// Read odd key
-	keyIVs[oddKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][keyIndex], data[index:])
-	index += bufferLen
+		bufferLen := int(binary.BigEndian.Uint32(data[index:]))
+		index += 4
 
-	// Read odd initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+		if !ds.hasLength(data, index+bufferLen, "cipher keys") {
+			return
+		}
 
-	// Read odd initialization vector
-	keyIVs[oddKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][ivIndex], data[index:])
-	//index += bufferLen
+		*target = make([]byte, bufferLen)
+		copy(*target, data[index:])
+		index += bufferLen
+	}
 
 	// Exchange keys
 	ds.keyIVs = keyIVs
@@ -1343,6 +1347,10 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if !ds.hasLength(data, 1, "data packet") {
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1374,7 +1382,19 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if !ds.hasLength(data, 4, "data packet") {
+		return
+	}
+
 	count := binary.BigEndian.Uint32(data)
+
+	// Measurements use at least nine bytes when compact, or one bit when compressed
+	if maxCount := 8 * len(data); uint64(count) > uint64(maxCount) || !compressed && uint64(count)*fixedLength > uint64(len(data)-4) {
+		ds.dispatchErrorMessage("Received data packet is too short for " + strconv.Itoa(int(count)) + " measurements - disconnecting.")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
 		m := make([]Measurement, count)
@@ -1430,6 +1450,10 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
+	if !ds.hasLength(data, 3, "TSSC data packet") {
+		return 0
+	}
+
 	// Use TSSC to decompress measurements
 	if decoder == nil {
 		signalIndexCache.tsscDecoder = tssc.NewDecoder()
@@ -1492,6 +1516,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
+			if index == len(measurements) {
+				err = errors.New("more measurements found than expected")
+				break
+			}
+
 			measurements[index] = Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
@@ -1556,6 +1585,16 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	headerSize := 8
+
+	if ds.Version > 1 {
+		headerSize = 9
+	}
+
+	if !ds.hasLength(data, headerSize, "buffer block") {
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	var signalIndexCacheIndex int32
@@ -1628,6 +1667,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if !ds.hasLength(data, 4, "notification") {
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..f19d780 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -178,7 +178,7 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	binaryLength := binary.BigEndian.Uint32(buffer)
 	offset += 4
 
-	if length < binaryLength {
+	if length < binaryLength || length < 24 {
 		return errors.New("not enough buffer provided to parse")
 	}
 
@@ -200,6 +200,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		if length-offset < 24 {
+			return errors.New("not enough buffer provided to parse record")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +221,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		if uint64(length-offset) < uint64(sourceSize)+8 {
+			return errors.New("not enough buffer provided to parse record source and ID")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..607eeac 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -30,6 +30,9 @@ import (
 	"math"
 )
 
+// maxMeasurementSize defines an upper limit, in bytes, for the size of a single encoded measurement.
+const maxMeasurementSize = 32
+
 // Decoder is the decoder for the Time-Series Special Compression (TSSC) algorithm of STTP.
 type Decoder struct {
 	data         []byte
@@ -88,7 +91,11 @@ func (td *Decoder) clearBitStream() {
 // SetBuffer assigns the working buffer to use for decoding measurements.
 func (td *Decoder) SetBuffer(data []byte) {
 	td.clearBitStream()
-	td.data = data
+
+	// Last measurement in a malformed buffer can extend past the end of the buffer, using
+	// a padded copy of the buffer allows it to be read before it is found to be malformed
+	td.data = append(td.data[:0], data...)
+	td.data = append(td.data, make([]byte, maxMeasurementSize)...)
 	td.position = 0
 	td.lastPosition = len(data)
 }
@@ -123,6 +130,10 @@ func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *ui
 	}
 
 	if code == int32(codeWords.EndOfStream) {
+		if td.position > td.lastPosition {
+			return false, fmt.Errorf("buffer ended unexpectedly at position %d", td.lastPosition)
+		}
+
 		td.clearBitStream()
 		*id = 0
 		*timestamp = 0
@@ -248,6 +259,10 @@ func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *ui
 		nextPoint.PrevValue1 = valueRaw
 	}
 
+	if td.position > td.lastPosition {
+		return false, fmt.Errorf("buffer ended unexpectedly at position %d", td.lastPosition)
+	}
+
 	// Assign decoded measurement value to out parameter
 	*value = math.Float32frombits(valueRaw)
 	td.lastPoint = nextPoint
-- 
2.43.0


From 40311337f1508e385786ae464dd3385b0bf1ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:44 +0000
Subject: [PATCH 15/65] fix: make closed and unread measurement readers
 harmless to the subscriber

Closing a reader made the next received measurement panic with a send on
a closed channel. A reader that was no longer read blocked the thread that
receives data, so that the subscriber could not be disconnected or closed.
---
 sttp/MeasurementReader.go | 83 ++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..51d83fc 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,46 +25,99 @@ package sttp
 
 import (
 	"context"
+	"sync"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
 
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current chan *transport.Measurement
+	queue     []transport.Measurement
+	mutex     sync.Mutex
+	available chan struct{} // Holds a value whenever queue has measurements
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
-		current: make(chan *transport.Measurement),
+		available: make(chan struct{}, 1),
+		closed:    make(chan struct{}),
 	}
 
-	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
-		for _, m := range *measurements {
-			reader.current <- &m
-		}
-	})
+	// Measurements are queued so that subscriber never has to wait on the reader
+	parent.SetNewMeasurementsReceiver(reader.enqueue)
 
 	return reader
 }
 
+func (mr *MeasurementReader) enqueue(measurements *[]transport.Measurement) {
+	mr.mutex.Lock()
+	defer mr.mutex.Unlock()
+
+	select {
+	case <-mr.closed:
+		return
+	default:
+	}
+
+	mr.queue = append(mr.queue, *measurements...)
+	mr.updateAvailable()
+}
+
+func (mr *MeasurementReader) dequeue() *transport.Measurement {
+	mr.mutex.Lock()
+	defer mr.mutex.Unlock()
+
+	// Another reader may have already taken the measurement
+	if len(mr.queue) == 0 {
+		return nil
+	}
+
+	measurement := mr.queue[0]
+	mr.queue = mr.queue[1:]
+	mr.updateAvailable()
+
+	return &measurement
+}
+
+func (mr *MeasurementReader) updateAvailable() {
+	if len(mr.queue) == 0 {
+		return
+	}
+
+	select {
+	case mr.available <- struct{}{}:
+	default:
+	}
+}
+
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done or
+// reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
 	}
 
-	select {
-	case <-ctx.Done():
-		return nil, true
-	case measurement := <-mr.current:
-		return measurement, false
+	for {
+		select {
+		case <-ctx.Done():
+			return nil, true
+		case <-mr.closed:
+			return nil, true
+		case <-mr.available:
+			if measurement := mr.dequeue(); measurement != nil {
+				return measurement, false
+			}
+		}
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.closeOnce.Do(func() {
+		close(mr.closed)
+	})
 }
-- 
2.43.0


From 989db500c036f4c3618c088c959e4627fbfeb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:19 +0000
Subject: [PATCH 16/65] fix: convert XSD date/times, booleans and integers of a
 data set

Date/times ending in "Z" or without a time zone became the zero time, the
boolean "1" became false, and integers with leading zeros were read as octal.
---
 sttp/data/DataSet.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..63119f5 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -293,10 +293,9 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
 				case DataType.Boolean:
-					dataRow.SetValue(columnIndex, value == "true")
+					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
-					dataRow.SetValue(columnIndex, dt)
+					dataRow.SetValue(columnIndex, parseDateTime(value))
 				case DataType.Single:
 					f32, _ := strconv.ParseFloat(value, 32)
 					dataRow.SetValue(columnIndex, float32(f32))
@@ -310,28 +309,28 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					g, _ := guid.Parse(value)
 					dataRow.SetValue(columnIndex, g)
 				case DataType.Int8:
-					i8, _ := strconv.ParseInt(value, 0, 8)
+					i8, _ := strconv.ParseInt(value, 10, 8)
 					dataRow.SetValue(columnIndex, int8(i8))
 				case DataType.Int16:
-					i16, _ := strconv.ParseInt(value, 0, 16)
+					i16, _ := strconv.ParseInt(value, 10, 16)
 					dataRow.SetValue(columnIndex, int16(i16))
 				case DataType.Int32:
-					i32, _ := strconv.ParseInt(value, 0, 32)
+					i32, _ := strconv.ParseInt(value, 10, 32)
 					dataRow.SetValue(columnIndex, int32(i32))
 				case DataType.Int64:
-					i64, _ := strconv.ParseInt(value, 0, 64)
+					i64, _ := strconv.ParseInt(value, 10, 64)
 					dataRow.SetValue(columnIndex, i64)
 				case DataType.UInt8:
-					ui8, _ := strconv.ParseUint(value, 0, 8)
+					ui8, _ := strconv.ParseUint(value, 10, 8)
 					dataRow.SetValue(columnIndex, uint8(ui8))
 				case DataType.UInt16:
-					ui16, _ := strconv.ParseUint(value, 0, 16)
+					ui16, _ := strconv.ParseUint(value, 10, 16)
 					dataRow.SetValue(columnIndex, uint16(ui16))
 				case DataType.UInt32:
-					ui32, _ := strconv.ParseUint(value, 0, 32)
+					ui32, _ := strconv.ParseUint(value, 10, 32)
 					dataRow.SetValue(columnIndex, uint32(ui32))
 				case DataType.UInt64:
-					ui64, _ := strconv.ParseUint(value, 0, 64)
+					ui64, _ := strconv.ParseUint(value, 10, 64)
 					dataRow.SetValue(columnIndex, ui64)
 				}
 			}
@@ -341,6 +340,17 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 	}
 }
 
+func parseDateTime(value string) time.Time {
+	// Time zone of an XSD date/time value is optional and can be expressed as "Z" for UTC
+	dt, err := time.Parse(time.RFC3339Nano, value)
+
+	if err != nil {
+		dt, _ = time.Parse("2006-01-02T15:04:05", value)
+	}
+
+	return dt
+}
+
 // // WriteXML saves the DataSet information as XML into the specified buffer.
 // func (ds *DataSet) WriteXml(data *[]byte, dataSetName string) {
 // // TODO: Will be needed by DataPublisher
-- 
2.43.0


From 9177ac46532cc7d8f960583b04d85787f5b9e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:36 +0000
Subject: [PATCH 17/65] fix: unescape text fields of a data set loaded from XML

Field values were taken from the raw XML of the field, so that character
references, entities and CDATA sections appeared in the data set as markup.
---
 sttp/data/DataSet.go | 2 +-
 sttp/xml/XmlNode.go  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 63119f5..a00ce12 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -287,7 +287,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				columnIndex := column.Index()
-				value := field.Value()
+				value := field.Text
 
 				switch column.Type() {
 				case DataType.String:
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..dd483ba 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// Text is the unescaped character data of this node, excluding content of any child nodes.
+	Text string `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
-- 
2.43.0


From 9a775c4b23074405a27495435d83c5c83c0eb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:39 +0000
Subject: [PATCH 18/65] fix: evaluate path predicates on their whole value

An empty predicate caused a panic, a predicate value holding "=" matched any
value, one holding "/" or "]" was cut off, and an empty quoted value never
matched.
---
 sttp/xml/XmlNode.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index dd483ba..23b81cb 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -155,7 +155,7 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 	// This is a simple XPath implementation, this can be expanded
 	// as needed, perhaps using github.com/antchfx/xpath
 	nodes := xn.GetChildNodes()
-	exprs := strings.Split(xpath, "/")
+	exprs := splitPath(xpath)
 	var results []*XmlNode
 
 	for i := 0; i < len(exprs); i++ {
@@ -165,13 +165,13 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 		for _, node := range nodes {
 			// Look for predicate expression
 			lbp := strings.IndexRune(expr, '[')
-			rbp := strings.IndexRune(expr, ']')
+			rbp := strings.LastIndex(expr, "]")
 
 			if lbp > -1 && rbp > -1 && rbp > lbp && len(expr) > 2 {
 				name := expr[:lbp]
 				predicate := expr[lbp+1 : rbp]
 
-				if predicate[0] == '@' {
+				if strings.HasPrefix(predicate, "@") {
 					if isMatch(node.Name, name) && node.attributeMatch(predicate[1:]) {
 						results = append(results, node)
 					}
@@ -202,12 +202,34 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 	return results
 }
 
+// splitPath splits xpath expression into its steps. Slashes within a predicate are part of the predicate.
+func splitPath(xpath string) []string {
+	var steps []string
+	start, depth := 0, 0
+
+	for i, c := range xpath {
+		switch c {
+		case '[':
+			depth++
+		case ']':
+			depth--
+		case '/':
+			if depth < 1 {
+				steps = append(steps, xpath[start:i])
+				start = i + 1
+			}
+		}
+	}
+
+	return append(steps, xpath[start:])
+}
+
 func isMatch(value, name string) bool {
 	return value == name || name == "*"
 }
 
 func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -249,7 +271,7 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -267,7 +289,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From ddb6e69cb748978dc2d31e0ed0b5f72d781d65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:53 +0000
Subject: [PATCH 19/65] fix: compare unescaped text in path value predicates

The value of a predicate was compared with the raw XML of the child node, so
that text holding escaped characters could not be selected.
---
 sttp/xml/XmlNode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 23b81cb..5ccc60c 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -279,7 +279,13 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 
 	if parts[0] == xn.Name || parts[0] == "*" {
 		if len(parts) == 2 {
-			return xn.Value() == removeQuotes(parts[1])
+			value := removeQuotes(parts[1])
+
+			if xn.HasChildNodes() {
+				return xn.Value() == value
+			}
+
+			return xn.Text == value
 		}
 
 		return true
-- 
2.43.0


From 8e130bbcc129a4b0e6a13160b56931285fdf39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:20 +0000
Subject: [PATCH 20/65] fix: keep source and ID set by metadata while a cache
 is received

Metadata is loaded on its own thread. A signal index cache received meanwhile
could find the source of a signal still unset and then replace the one that
metadata set in between, or combine the source of one with the ID of the other.
---
 sttp/Subscriber.go                 |  8 ++++++--
 sttp/transport/DataSubscriber.go   | 10 ++++++++++
 sttp/transport/SignalIndexCache.go | 10 ++++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 8a5c36d..bf6ce81 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -569,8 +569,12 @@ func (sb *Subscriber) loadMeasurementMetadata(dataSet *data.DataSet) {
 					parts := strings.Split(id, ":")
 
 					if len(parts) == 2 {
-						metadata.Source = parts[0]
-						metadata.ID, _ = strconv.ParseUint(parts[1], 10, 64)
+						id, _ := strconv.ParseUint(parts[1], 10, 64)
+
+						ds.UpdateMetadata(func() {
+							metadata.Source = parts[0]
+							metadata.ID = id
+						})
 					}
 				}
 
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index f959736..8b78a2a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -163,6 +163,7 @@ type DataSubscriber struct {
 	// Measurement parsing
 	metadataRequested       time.Time
 	measurementRegistry     sync.Map
+	metadataUpdateMutex     sync.Mutex
 	signalIndexCache        [2]*SignalIndexCache
 	signalIndexCacheMutex   sync.Mutex
 	cacheIndex              int32
@@ -310,6 +311,15 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 	return metadata.(*MeasurementMetadata)
 }
 
+// UpdateMetadata executes the specified function that updates MeasurementMetadata records while
+// no other update of the records, e.g., from a received signal index cache, is in progress.
+func (ds *DataSubscriber) UpdateMetadata(update func()) {
+	ds.metadataUpdateMutex.Lock()
+	defer ds.metadataUpdateMutex.Unlock()
+
+	update()
+}
+
 // Metadata gets the MeasurementMetadata associated with a measurement from the local
 // registry. If the metadata does not exist, a new record is created and returned.
 func (ds *DataSubscriber) Metadata(measurement *Measurement) *MeasurementMetadata {
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index f19d780..b7319d5 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -65,10 +65,12 @@ func (sic *SignalIndexCache) addRecord(ds *DataSubscriber, signalIndex int32, si
 	metadata := ds.LookupMetadata(signalID)
 
 	// Register measurement metadata if not defined already
-	if len(metadata.Source) == 0 {
-		metadata.Source = source
-		metadata.ID = id
-	}
+	ds.UpdateMetadata(func() {
+		if len(metadata.Source) == 0 {
+			metadata.Source = source
+			metadata.ID = id
+		}
+	})
 
 	// Char size here helps provide a rough-estimate on binary length used to reserve
 	// bytes for a vector, if exact size is needed call RecalculateBinaryLength first
-- 
2.43.0


From aaff7e3ff1516bf115555378bd4597b566c71379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:52 +0000
Subject: [PATCH 21/65] fix: do not allocate the packet size announced by a
 peer before the data arrives

---
 sttp/transport/DataSubscriber.go | 37 +++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 8b78a2a..e7a21f1 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1010,14 +1010,41 @@ func (ds *DataSubscriber) readPayloadHeader(bytesTransferred int, err error) {
 		}
 	}
 
-	if int(packetSize) > cap(ds.readBuffer) {
-		ds.readBuffer = make([]byte, packetSize)
-	}
-
 	// Read packet (payload body)
 	// This read method is guaranteed not to return until the
 	// requested size has been read or an error has occurred.
-	ds.readPacket(io.ReadFull(ds.reader, ds.readBuffer[:packetSize]))
+	ds.readPacket(ds.readFull(int(packetSize)))
+}
+
+// readFull reads exactly packetSize bytes into the read buffer. The buffer is grown as data
+// arrives, the received size alone never determines how much memory gets allocated.
+func (ds *DataSubscriber) readFull(packetSize int) (int, error) {
+	bytesRead := 0
+
+	for {
+		limit := packetSize
+
+		if limit > cap(ds.readBuffer) {
+			limit = cap(ds.readBuffer)
+		}
+
+		count, err := io.ReadFull(ds.reader, ds.readBuffer[bytesRead:limit])
+		bytesRead += count
+
+		if err != nil || bytesRead == packetSize {
+			return bytesRead, err
+		}
+
+		size := 2 * cap(ds.readBuffer)
+
+		if size > packetSize {
+			size = packetSize
+		}
+
+		buffer := make([]byte, size)
+		copy(buffer, ds.readBuffer[:bytesRead])
+		ds.readBuffer = buffer
+	}
 }
 
 func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
-- 
2.43.0


From bb4ee5a70828c4b7aba1940f3baa3b5739354b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:04 +0000
Subject: [PATCH 22/65] fix: convert timestamps before 1970 and after 2262
 exactly

---
 sttp/ticks/Ticks.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..22dddea 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,10 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	// Seconds and remainder are converted separately since nanoseconds
+	// do not fit in 64-bits for the full range of Ticks values
+	value := ticks.TimestampValue() - int64(UnixBaseOffset)
+	return time.Unix(value/int64(PerSecond), value%int64(PerSecond)*100).UTC()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +99,7 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	return Ticks(time.Unix()*int64(PerSecond)+int64(time.Nanosecond()/100)) + UnixBaseOffset
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +144,7 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ToTime(t)
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From ec56e7e911d0a3fd89ff41f99a6cf4eb3ec5f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:11 +0000
Subject: [PATCH 23/65] fix: do not insert a group symbol when formatting
 infinity

---
 sttp/format/Float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sttp/format/Float.go b/sttp/format/Float.go
index 76e484c..0c95026 100644
--- a/sttp/format/Float.go
+++ b/sttp/format/Float.go
@@ -25,6 +25,7 @@
 package format
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -39,6 +40,11 @@ func Float(f float64, prec int) string {
 // and the specified numeric thousands groupSymbol, e.g., ','.
 func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 	in := strconv.FormatFloat(f, 'f', prec, 64)
+
+	if math.IsInf(f, 0) || math.IsNaN(f) {
+		return in // Nothing to group
+	}
+
 	decSymbolAsStr := string([]byte{decimalSymbol})
 
 	if decimalSymbol != '.' {
-- 
2.43.0


From 7658ad792b546e42a26e1619286fdc0b94c36b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:48 +0000
Subject: [PATCH 24/65] fix: select only nodes with attributes for a wildcard
 attribute predicate

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 5ccc60c..1d015d4 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -237,7 +237,7 @@ func (xn *XmlNode) attributeMatch(expr string) bool {
 
 	if parts[0] == "*" {
 		if len(parts) == 1 {
-			return true
+			return len(xn.Attributes) > 0
 		}
 
 		// Check if any attribute value matches
-- 
2.43.0


From 902bcf37b85df767f7c781742c3f9f8906a5dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:50 +0000
Subject: [PATCH 25/65] fix: read quoted values in path predicates with either
 quote and any content

---
 sttp/xml/XmlNode.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 1d015d4..fd2a1e3 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -202,13 +202,27 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 	return results
 }
 
-// splitPath splits xpath expression into its steps. Slashes within a predicate are part of the predicate.
+// splitPath splits xpath expression into its steps. Slashes within a predicate are part of the predicate,
+// as are brackets within its quoted value.
 func splitPath(xpath string) []string {
 	var steps []string
+	var quote rune
 	start, depth := 0, 0
 
 	for i, c := range xpath {
+		if quote != 0 {
+			if c == quote {
+				quote = 0
+			}
+
+			continue
+		}
+
 		switch c {
+		case '\'', '"':
+			if depth > 0 {
+				quote = c
+			}
 		case '[':
 			depth++
 		case ']':
@@ -295,7 +309,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
+	if len(value) > 1 && (value[0] == '\'' || value[0] == '"') && value[len(value)-1] == value[0] {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 1f7b889cd4699eaf4f8e258f7f8c9346cfbc0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:52 +0000
Subject: [PATCH 26/65] fix: replace previous content when another XML document
 is loaded

---
 sttp/xml/XmlDocument.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index 8a0c7f8..7d8f8dc 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -93,6 +93,10 @@ func (xn *XmlNode) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 // LoadXml loads the XmlDocument from the specified XML data.
 func (xd *XmlDocument) LoadXml(data []byte) error {
+	// Decoding adds to existing content, make sure any prior document is cleared
+	xd.Root = XmlNode{}
+	xd.maxLevel = 0
+
 	buffer := bytes.NewBuffer(data)
 	decoder := xml.NewDecoder(buffer)
 
-- 
2.43.0


From 4cae4caf4298695c7e7c8c227c9b797253492765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:22 +0000
Subject: [PATCH 27/65] fix: evaluate computed columns when a value is read by
 name

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..1fbbc0c 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -503,7 +503,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From e71bef1780f60eed867db7dd72e35ba974807e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:24 +0000
Subject: [PATCH 28/65] fix: give null for a computed column whose expression
 is null

---
 sttp/data/DataRow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 1fbbc0c..388226e 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -124,6 +124,10 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From 87bfb5b7edd4a049f89a99a3fe8f2de3d9240ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:27 +0000
Subject: [PATCH 29/65] fix: ignore white space around values of data set
 records

---
 sttp/data/DataSet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index a00ce12..3c1d475 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -289,6 +289,11 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				columnIndex := column.Index()
 				value := field.Text
 
+				// White space around values of other types is not significant
+				if column.Type() != DataType.String {
+					value = strings.TrimSpace(value)
+				}
+
 				switch column.Type() {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
-- 
2.43.0


From 780087e9898103611256d812a788f395d275a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:29 +0000
Subject: [PATCH 30/65] fix: find namespace prefixes declared by an ancestor of
 the node

---
 sttp/xml/XmlNode.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index fd2a1e3..295f8b3 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -92,9 +92,12 @@ func (xn *XmlNode) Value() string {
 func (xn *XmlNode) Prefix() string {
 	namespace := xn.Namespace
 
-	for name, value := range xn.Attributes {
-		if value == namespace {
-			return name
+	// Prefix can be declared by this node or any of its ancestors
+	for node := xn; node != nil; node = node.Parent {
+		for name, value := range node.Attributes {
+			if value == namespace && node.AttributeNamespaces[name] == "xmlns" {
+				return name
+			}
 		}
 	}
 
-- 
2.43.0


From eaca5e72d26fdd0bdd09a8d3962cdd43b20806c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:19 +0000
Subject: [PATCH 31/65] fix: convert a Boolean expression value to Int32
 without a type mismatch panic

---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..4eeb086 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -410,7 +410,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From bbb3345562999cbd2df0ad769c614ff00d2792e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:21 +0000
Subject: [PATCH 32/65] fix: report integer and decimal division by zero as an
 expression error

---
 sttp/data/ExpressionTree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..dcac66b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2601,6 +2601,20 @@ func convertOperands(leftValue, rightValue **ValueExpression, valueType Expressi
 	return nil
 }
 
+// Division by zero is undefined for integer and decimal values, double values follow IEEE 754
+func isZeroDivisor(value *ValueExpression) bool {
+	switch value.ValueType() {
+	case ExpressionValueType.Int32:
+		return value.int32Value() == 0
+	case ExpressionValueType.Int64:
+		return value.int64Value() == 0
+	case ExpressionValueType.Decimal:
+		return value.decimalValue().IsZero()
+	default:
+		return false
+	}
+}
+
 func (et *ExpressionTree) multiplyOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
@@ -2645,6 +2659,10 @@ func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, value
 		return nil, errors.New("division \"/\" operator " + err.Error())
 	}
 
+	if isZeroDivisor(rightValue) {
+		return nil, errors.New("division \"/\" operator right operand is zero")
+	}
+
 	switch valueType {
 	case ExpressionValueType.Int32:
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()/rightValue.int32Value())), nil
@@ -2679,6 +2697,10 @@ func (et *ExpressionTree) modulusOp(leftValue, rightValue *ValueExpression, valu
 		return nil, errors.New("modulus \"%\" operator " + err.Error())
 	}
 
+	if isZeroDivisor(rightValue) {
+		return nil, errors.New("modulus \"%\" operator right operand is zero")
+	}
+
 	switch valueType {
 	case ExpressionValueType.Int32:
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()%rightValue.int32Value())), nil
-- 
2.43.0


From 46190acb1fc87243d10c077107ba8779a8800758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:23 +0000
Subject: [PATCH 33/65] fix: evaluate the first argument of the IIf function as
 its test

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index dcac66b..ddcc128 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -691,7 +691,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From d7c82340d8cd480eb6ed4ebf139e3e6d248faabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:25 +0000
Subject: [PATCH 34/65] fix: use the exponent argument of the Power function

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index ddcc128..b0cfb44 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2150,7 +2150,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-- 
2.43.0


From c1fa6e1cfe0a893f8f056b57c01b2a79b42bfe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:28 +0000
Subject: [PATCH 35/65] fix: make the null result of a comparison or IN test a
 Boolean

---
 sttp/data/ExpressionTree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index b0cfb44..f9a5bcf 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -355,7 +355,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
@@ -2998,7 +2998,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3032,7 +3032,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3068,7 +3068,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3102,7 +3102,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3138,7 +3138,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3175,7 +3175,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From 60702dbc1ddced0f52059e667e9496ae1702ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:30 +0000
Subject: [PATCH 36/65] fix: match the whole value for a LIKE pattern without
 wild cards

---
 sttp/data/ExpressionTree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index f9a5bcf..2e6dc86 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3246,6 +3246,15 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 		testExpression = testExpression[:len(testExpression)-1]
 	}
 
+	// Expression without wild cards means match whole value
+	if !startsWithWildcard && !endsWithWildcard && !strings.ContainsRune(testExpression, '*') {
+		if exactMatch {
+			return newValueExpression(ExpressionValueType.Boolean, leftOperand == rightOperand), nil
+		}
+
+		return newValueExpression(ExpressionValueType.Boolean, strings.EqualFold(leftOperand, rightOperand)), nil
+	}
+
 	// "*" or "**" expression means match everything
 	if len(testExpression) == 0 {
 		return True, nil
-- 
2.43.0


From 9f84f0a80a39f1cc72dee23b704ab1c1727171ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:32 +0000
Subject: [PATCH 37/65] fix: keep the sign of an Int64 value shifted right, as
 for Int32

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2e6dc86..8145ce6 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2875,7 +2875,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From 293b7a398209ddd44df8a6783434017a319fe5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:34 +0000
Subject: [PATCH 38/65] fix: read a doubled quote in a string literal as one
 quote

---
 sttp/data/FilterExpressionParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..ee0bfb9 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1481,7 +1481,8 @@ func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
 	// ensures strings starting with quote also ends with one
 	if stringLiteral[0] == '\'' {
-		return stringLiteral[1 : len(stringLiteral)-1]
+		// Doubled quotes within string represent a single quote
+		return strings.ReplaceAll(stringLiteral[1:len(stringLiteral)-1], "''", "'")
 	}
 
 	return stringLiteral
-- 
2.43.0


From 414d6819d832e8c59de14db5505301370b5d939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:50 +0000
Subject: [PATCH 39/65] fix: read integer literals as decimal or hexadecimal
 numbers of any size

---
 sttp/data/FilterExpressionParser.go | 32 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index ee0bfb9..8313295 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 	"time"
@@ -1050,24 +1051,21 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 	if integerLiteral := context.INTEGER_LITERAL(); integerLiteral != nil {
 		literal := integerLiteral.GetText()
 
-		if i64, err := strconv.ParseInt(literal, 0, 64); err == nil {
-			if i64 > math.MaxInt32 {
-				result = newValueExpression(ExpressionValueType.Int64, i64)
-			} else {
-				result = newValueExpression(ExpressionValueType.Int32, int32(i64))
-			}
-		} else if ui64, err := strconv.ParseUint(literal, 0, 64); err == nil {
-			if ui64 > math.MaxInt64 {
-				result = parseNumericLiteral(literal)
-			} else if ui64 > math.MaxInt32 {
-				result = newValueExpression(ExpressionValueType.Int64, int64(ui64))
-			} else {
-				result = newValueExpression(ExpressionValueType.Int32, int32(ui64))
-			}
-		} else if d, err := decimal.NewFromString(literal); err == nil {
-			result = newValueExpression(ExpressionValueType.Decimal, d)
-		} else {
+		digits, base := literal, 10
+
+		// Integer literals are decimal, leading zeros included, unless prefixed as hexadecimal
+		if strings.HasPrefix(literal, "0x") || strings.HasPrefix(literal, "0X") {
+			digits, base = literal[2:], 16
+		}
+
+		if integer, ok := new(big.Int).SetString(digits, base); !ok {
 			result = newValueExpression(ExpressionValueType.String, literal)
+		} else if !integer.IsInt64() {
+			result = newValueExpression(ExpressionValueType.Decimal, decimal.NewFromBigInt(integer, 0))
+		} else if i64 := integer.Int64(); i64 > math.MaxInt32 {
+			result = newValueExpression(ExpressionValueType.Int64, i64)
+		} else {
+			result = newValueExpression(ExpressionValueType.Int32, int32(i64))
 		}
 	} else if numericLiteral := context.NUMERIC_LITERAL(); numericLiteral != nil {
 		literal := numericLiteral.GetText()
-- 
2.43.0


From 5a77e9e719f30b020902f7219d70387890bebeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:53 +0000
Subject: [PATCH 40/65] fix: report conversion of a non-finite Double to
 Decimal as an error

---
 sttp/data/ValueExpression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 4eeb086..b712904 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -515,6 +516,10 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" value " + ve.String() + " to \"Decimal\"")
+		}
+
 		return newValueExpression(targetValueType, decimal.NewFromFloat(value)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(targetValueType, value), nil
-- 
2.43.0


From 4aac23691a338b78ddddfd6b0acace06149a35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:55 +0000
Subject: [PATCH 41/65] fix: take the replacement of a case-insensitive Replace
 literally

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 8145ce6..1db480b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2261,7 +2261,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From c1edaa806adcb14da92d6300a489b6e86eab6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:57 +0000
Subject: [PATCH 42/65] fix: do not read past the source when NthIndexOf
 searches for an empty string

---
 sttp/data/ExpressionTree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 1db480b..d27e510 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3363,6 +3363,16 @@ func findNthIndex(source, test string, index int) int {
 
 		location++
 		result += location
+
+		// An empty test value is also found at the end of the source, but nowhere beyond
+		if location > len(source) {
+			if i < index {
+				result = 0
+			}
+
+			break
+		}
+
 		source = source[location:]
 	}
 
-- 
2.43.0


From da8ecde2ab7d32a0a5492945fc6c7f0fcc369c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:59 +0000
Subject: [PATCH 43/65] fix: split on every delimiter, leading ones included,
 and return a source without any

---
 sttp/data/ExpressionTree.go | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index d27e510..56f33bf 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2342,15 +2342,20 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 		return nil, errors.New("failed while converting \"Split\" function optional ignore case value, fourth argument, to \"Boolean\": " + err.Error())
 	}
 
-	index := indexValue.integerValue(-1)
-	var result []int
+	delimiterExpression := regexp.QuoteMeta(delimiterValue.stringValue())
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
-	} else {
-		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
+		delimiterExpression = "(?i)" + delimiterExpression
 	}
 
+	regex, err := regexp.Compile(delimiterExpression)
+
+	if err != nil {
+		return nil, errors.New("failed while compiling \"Split\" function delimiter value, second argument: " + err.Error())
+	}
+
+	result := splitNthIndex(sourceValue.stringValue(), regex.FindStringIndex, indexValue.integerValue(-1))
+
 	if result == nil {
 		return EmptyString, nil
 	}
@@ -3379,22 +3384,28 @@ func findNthIndex(source, test string, index int) int {
 	return result - 1
 }
 
-// https://play.golang.org/p/_7nc06CqjKi
-func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
+// splitNthIndex gets the bounds of the zero-based nth segment of source, find gets the bounds of the first delimiter
+func splitNthIndex(source string, find func(string) []int, index int) []int {
+	start := 0
 
-	if firstIndex <= 0 && secondIndex <= 0 {
-		return nil
-	}
+	for ; index >= 0; index-- {
+		delimiter := find(source[start:])
 
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
+		// An empty delimiter does not separate anything
+		if delimiter == nil || delimiter[0] == delimiter[1] {
+			if index == 0 {
+				return []int{start, len(source)}
+			}
+
+			return nil
+		}
 
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
+		if index == 0 {
+			return []int{start, start + delimiter[0]}
+		}
+
+		start += delimiter[1]
 	}
 
-	return []int{firstIndex + len(test), secondIndex}
+	return nil
 }
-- 
2.43.0


From b5e876beed3d7f89ff239fd0304b8326ca8947ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:01 +0000
Subject: [PATCH 44/65] fix: bound the SubStr length without overflow

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 56f33bf..959c001 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2526,7 +2526,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From 671f00213a96041ed4f0f20c2950510d1406bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:02 +0000
Subject: [PATCH 45/65] fix: order null before other values in the StrCmp
 function, as its comments say

---
 sttp/data/ExpressionTree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 959c001..0850781 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2469,12 +2469,12 @@ func (et *ExpressionTree) strCmp(leftValue, rightValue, ignoreCase *ValueExpress
 
 	// If left value is null, right non-null value will be considered greater
 	if leftValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
 	}
 
 	// If right value is null, left non-null value will be considered greater
 	if rightValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
 	}
 
 	var err error
-- 
2.43.0


From a031a42c03c2add4418dc56adb9287f9975c39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:05 +0000
Subject: [PATCH 46/65] fix: add time intervals of more than 292 years without
 overflow in DateAdd

---
 sttp/data/ExpressionTree.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 0850781..63c4c42 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -1598,18 +1598,23 @@ func (et *ExpressionTree) dateAdd(sourceValue, addValue, intervalType *ValueExpr
 	case TimeInterval.Week:
 		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().AddDate(0, 0, value*7)), nil
 	case TimeInterval.Hour:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Hour*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value)*3600, 0)), nil
 	case TimeInterval.Minute:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Minute*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value)*60, 0)), nil
 	case TimeInterval.Second:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Second*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value), 0)), nil
 	case TimeInterval.Millisecond:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Millisecond*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value/1000), int64(value%1000)*1e6)), nil
 	default:
 		return nil, errors.New("unexpected time interval encountered")
 	}
 }
 
+// A time.Duration only spans 292 years, so longer intervals are added as seconds
+func addSeconds(source time.Time, seconds, nanoseconds int64) time.Time {
+	return time.Unix(source.Unix()+seconds, int64(source.Nanosecond())+nanoseconds).In(source.Location())
+}
+
 //gocyclo:ignore
 func (et *ExpressionTree) dateDiff(leftValue, rightValue, intervalType *ValueExpression) (*ValueExpression, error) {
 	if leftValue.ValueType() != ExpressionValueType.DateTime && leftValue.ValueType() != ExpressionValueType.String {
-- 
2.43.0


From 3bab7898c63ba9133841081395f5d08f3db0a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:07 +0000
Subject: [PATCH 47/65] fix: compute date differences exactly and report those
 beyond Int32 as errors

---
 sttp/data/ExpressionTree.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 63c4c42..2e5cb17 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -1671,7 +1671,19 @@ func (et *ExpressionTree) dateDiff(leftValue, rightValue, intervalType *ValueExp
 		}
 	}
 
-	delta := rightDate.Sub(leftDate)
+	// Elapsed time in whole seconds plus nanoseconds of the same sign, which unlike a time.Duration is not limited to 292 years
+	seconds := rightDate.Unix() - leftDate.Unix()
+	nanoseconds := int64(rightDate.Nanosecond() - leftDate.Nanosecond())
+
+	if seconds > 0 && nanoseconds < 0 {
+		seconds--
+		nanoseconds += 1e9
+	} else if seconds < 0 && nanoseconds > 0 {
+		seconds++
+		nanoseconds -= 1e9
+	}
+
+	var delta int64
 
 	switch interval {
 	case TimeInterval.DayOfYear:
@@ -1679,20 +1691,26 @@ func (et *ExpressionTree) dateDiff(leftValue, rightValue, intervalType *ValueExp
 	case TimeInterval.Day:
 		fallthrough
 	case TimeInterval.WeekDay:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Hours()/24.0)), nil
+		delta = seconds / 86400
 	case TimeInterval.Week:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Hours()/24.0/7.0)), nil
+		delta = seconds / (86400 * 7)
 	case TimeInterval.Hour:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Hours())), nil
+		delta = seconds / 3600
 	case TimeInterval.Minute:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Minutes())), nil
+		delta = seconds / 60
 	case TimeInterval.Second:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Seconds())), nil
+		delta = seconds
 	case TimeInterval.Millisecond:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Milliseconds())), nil
+		delta = seconds*1000 + nanoseconds/1e6
 	default:
 		return nil, errors.New("unexpected time interval encountered")
 	}
+
+	if delta < math.MinInt32 || delta > math.MaxInt32 {
+		return nil, errors.New("\"DateDiff\" function result " + strconv.FormatInt(delta, 10) + " exceeds the range of an \"Int32\"")
+	}
+
+	return newValueExpression(ExpressionValueType.Int32, int32(delta)), nil
 }
 
 //gocyclo:ignore
-- 
2.43.0


From 11aa1dcdb47ca859b7e0173964e88a0b822b3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:09 +0000
Subject: [PATCH 48/65] fix: support fractional exponents and report zero to a
 negative power in Power

---
 sttp/data/ExpressionTree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2e5cb17..1eb5c9c 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2185,7 +2185,18 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	case ExpressionValueType.Int64:
 		return newValueExpression(ExpressionValueType.Int64, int64(math.Pow(float64(sourceValue.int64Value()), float64(exponentValue.int64Value())))), nil
 	case ExpressionValueType.Decimal:
-		return newValueExpression(ExpressionValueType.Decimal, sourceValue.decimalValue().Pow(exponentValue.decimalValue())), nil
+		base, exponent := sourceValue.decimalValue(), exponentValue.decimalValue()
+
+		if base.IsZero() && exponent.IsNegative() {
+			return nil, errors.New("\"Power\" function source value, first argument, is zero with a negative exponent")
+		}
+
+		// Decimal power function only supports integer exponents
+		if !exponent.Equal(exponent.Truncate(0)) {
+			return newValueExpression(ExpressionValueType.Double, math.Pow(base.InexactFloat64(), exponent.InexactFloat64())).Convert(ExpressionValueType.Decimal)
+		}
+
+		return newValueExpression(ExpressionValueType.Decimal, base.Pow(exponent)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Pow(sourceValue.doubleValue(), exponentValue.doubleValue())), nil
 	default:
-- 
2.43.0


From fe261f4cfc9df82b7fa2f96321a1201be1bd4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:28 +0000
Subject: [PATCH 49/65] fix: return filter expression syntax errors instead of
 evaluating what could be read

---
 sttp/data/CallbackErrorListener.go  | 13 ++++++++++++-
 sttp/data/FilterExpressionParser.go |  5 +++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/sttp/data/CallbackErrorListener.go b/sttp/data/CallbackErrorListener.go
index 6f0bc47..bb324e9 100644
--- a/sttp/data/CallbackErrorListener.go
+++ b/sttp/data/CallbackErrorListener.go
@@ -23,7 +23,11 @@
 
 package data
 
-import "github.com/antlr/antlr4/runtime/Go/antlr"
+import (
+	"fmt"
+
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+)
 
 // CallbackErrorListener defines a implementation of an ANTLR error listener
 // that reports any parsing exceptions to a user defined callback.
@@ -32,6 +36,9 @@ type CallbackErrorListener struct {
 
 	// ParsingExceptionCallback defines a callback for reporting ANTLR parsing exceptions.
 	ParsingExceptionCallback func(message string)
+
+	// First encountered syntax error, if any
+	syntaxError string
 }
 
 // NewCallbackErrorListener creates a new NewCallbackErrorListener.
@@ -43,6 +50,10 @@ func NewCallbackErrorListener() *CallbackErrorListener {
 
 // SyntaxError is called when ANTLR parser encounters a syntax error.
 func (cel *CallbackErrorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
+	if len(cel.syntaxError) == 0 {
+		cel.syntaxError = fmt.Sprintf("line %d:%d %s", line, column, msg)
+	}
+
 	if cel.ParsingExceptionCallback == nil {
 		return
 	}
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8313295..0695b74 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -299,6 +299,11 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	parseTree := fep.parser.Parse()
+
+	if len(fep.errorListener.syntaxError) > 0 {
+		return errors.New("filter expression syntax error: " + fep.errorListener.syntaxError)
+	}
+
 	walker.Walk(fep, parseTree)
 
 	return err
-- 
2.43.0


From fad7058396f9bef433a61ee1c5877c6b635b6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:31 +0000
Subject: [PATCH 50/65] fix: apply the TOP limit after ORDER BY sorting

---
 sttp/data/ExpressionTree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 1eb5c9c..b1fb81e 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -99,9 +99,11 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 	var result bool
 	var err error
 
-	// Find rows matching expression tree
+	applySort = applySort && len(et.OrderByTerms) > 0
+
+	// Find rows matching expression tree - when sorting, limit applies to sorted rows
 	for i := 0; i < table.RowCount(); i++ {
-		if applyLimit && et.TopLimit > -1 && len(matchedRows) >= et.TopLimit {
+		if applyLimit && !applySort && et.TopLimit > -1 && len(matchedRows) >= et.TopLimit {
 			break
 		}
 
@@ -123,7 +125,7 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 		}
 	}
 
-	if applySort && len(matchedRows) > 0 && len(et.OrderByTerms) > 0 {
+	if applySort && len(matchedRows) > 0 {
 		sort.Slice(matchedRows, func(i, j int) bool {
 			leftMatchedRow := matchedRows[i]
 			rightMatchedRow := matchedRows[j]
@@ -154,6 +156,10 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 
 			return false
 		})
+
+		if applyLimit && et.TopLimit > -1 && len(matchedRows) > et.TopLimit {
+			matchedRows = matchedRows[:et.TopLimit]
+		}
 	}
 
 	return matchedRows, nil
-- 
2.43.0


From d7e0e5dd027a724fd5dc8bd94e14f6e28bfa000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:33 +0000
Subject: [PATCH 51/65] fix: keep the table order of rows that sort as equal

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index b1fb81e..2a20708 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -126,7 +126,7 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 	}
 
 	if applySort && len(matchedRows) > 0 {
-		sort.Slice(matchedRows, func(i, j int) bool {
+		sort.SliceStable(matchedRows, func(i, j int) bool {
 			leftMatchedRow := matchedRows[i]
 			rightMatchedRow := matchedRows[j]
 
-- 
2.43.0


From b087c118725fb30cfd6279c5cd4fb1ac086329cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:35 +0000
Subject: [PATCH 52/65] fix: sort case-sensitively only for ORDER BY terms
 marked as exact match

---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 0695b74..474f1f1 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -478,7 +478,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From 58d64c9bef2aa25576ea1c1827b1e94c48176942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:18 +0000
Subject: [PATCH 53/65] fix: sort False before True, as comparison operators do

---
 sttp/data/DataRow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 388226e..e26f264 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -1514,11 +1514,11 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue && !rightValue {
+			if !leftValue && rightValue {
 				return -1, nil
 			}
 
-			if !leftValue && rightValue {
+			if leftValue && !rightValue {
 				return 1, nil
 			}
 
-- 
2.43.0


From 46bb7208594df4d7ae3348606b582a40a5cacb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:20 +0000
Subject: [PATCH 54/65] fix: return no rows when selecting from a table with a
 limit of zero

---
 sttp/data/DataTable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..9f77b37 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -255,7 +255,7 @@ func (dt *DataTable) Select(filterExpression string, sortOrder string, limit int
 		filterExpression = "True" // Return all records
 	}
 
-	if limit > 0 {
+	if limit > -1 {
 		filterExpression = fmt.Sprintf("FILTER TOP %d %s WHERE %s", limit, dt.name, filterExpression)
 	} else {
 		filterExpression = fmt.Sprintf("FILTER %s WHERE %s", dt.name, filterExpression)
-- 
2.43.0


From 94ed21bfbff1945a3883497f13e343fd68ba92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:22 +0000
Subject: [PATCH 55/65] fix: return no rows from RowsWhere with a limit of zero

---
 sttp/data/DataTable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 9f77b37..49eb3f0 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -158,6 +158,10 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 	for i := 0; i < len(dt.rows); i++ {
 		dataRow := dt.rows[i]
 
+		if limit > -1 && count >= limit {
+			break
+		}
+
 		if dataRow == nil {
 			continue
 		}
@@ -165,10 +169,6 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 		if predicate(dataRow) {
 			matchingRows = append(matchingRows, dataRow)
 			count++
-
-			if limit > -1 && count >= limit {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From a418e7fbb1168580514dc743323baa7521525480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:24 +0000
Subject: [PATCH 56/65] fix: find signal ID fields when the primary table name
 differs in case

---
 sttp/data/FilterExpressionParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 474f1f1..5542464 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -120,6 +120,11 @@ func NewFilterExpressionParserForDataSet(dataSet *DataSet, filterExpression stri
 	parser.DataSet = dataSet
 
 	if len(primaryTable) > 0 {
+		// Table names are not case-sensitive, ID fields are tracked by actual name
+		if table := dataSet.Table(primaryTable); table != nil {
+			primaryTable = table.Name()
+		}
+
 		parser.PrimaryTableName = primaryTable
 
 		if tableIDFields == nil {
-- 
2.43.0


From 3ac6c7b2ac8acb92caa1abf74f77bda39807fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:26 +0000
Subject: [PATCH 57/65] fix: accept the quoted table and column names the
 grammar defines

---
 sttp/data/FilterExpressionParser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 5542464..24c7b93 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -446,7 +446,7 @@ func (fep *FilterExpressionParser) EnterFilterExpressionStatement(context *parse
 
 // EnterFilterStatement is called when production filterStatement is entered.
 func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterStatementContext) {
-	tableName := context.TableName().GetText()
+	tableName := parseIdentifier(context.TableName().GetText())
 
 	table, err := fep.Table(tableName)
 
@@ -473,7 +473,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 
 		for i := 0; i < len(orderingTerms); i++ {
 			orderingTermContext := orderingTerms[i].(*parser.OrderingTermContext)
-			orderByColumnName := orderingTermContext.OrderByColumnName().GetText()
+			orderByColumnName := parseIdentifier(orderingTermContext.OrderByColumnName().GetText())
 			orderByColumn := table.ColumnByName(orderByColumnName)
 
 			if orderByColumn == nil {
@@ -1147,7 +1147,7 @@ func (fep *FilterExpressionParser) ExitColumnName(context *parser.ColumnNameCont
 		panic("cannot parse column name in filter expression, " + err.Error())
 	}
 
-	columnName := context.IDENTIFIER().GetText()
+	columnName := parseIdentifier(context.IDENTIFIER().GetText())
 	dataColumn := table.ColumnByName(columnName)
 
 	if dataColumn == nil {
@@ -1485,6 +1485,16 @@ func SelectSignalIDSetFromTable(dataTable *DataTable, filterExpression string, p
 	return SelectSignalIDSet(dataTable.Parent(), filterExpression, dataTable.Name(), tableIDFields, suppressConsoleErrorOutput)
 }
 
+func parseIdentifier(identifier string) string {
+	// Remove any surrounding back-ticks or brackets from identifier, ANTLR grammar
+	// already ensures identifiers starting with one of these also end with one
+	if identifier[0] == '`' || identifier[0] == '[' {
+		return identifier[1 : len(identifier)-1]
+	}
+
+	return identifier
+}
+
 func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
 	// ensures strings starting with quote also ends with one
-- 
2.43.0


From ff1133169e8e0d47efb7ef6d6044171caf2a3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:23 +0000
Subject: [PATCH 58/65] fix: allow a filter expression parser to evaluate its
 expression again

---
 sttp/data/FilterExpressionParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 24c7b93..7830fbe 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -303,6 +303,12 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
+
+	// Start from first token, expression may have been parsed before
+	fep.tokens.Seek(0)
+	fep.parser.SetTokenStream(fep.tokens)
+	fep.errorListener.syntaxError = ""
+
 	parseTree := fep.parser.Parse()
 
 	if len(fep.errorListener.syntaxError) > 0 {
-- 
2.43.0


From 6f987d2404fee1f9080dece817e540ffe059e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:07:30 +0000
Subject: [PATCH 59/65] fix: parse each data packet with one set of base times
 and cipher keys

Base times and cipher keys arrive on the command channel thread while the
UDP data channel thread parses packets. Measurements of one packet could be
given timestamps from both the old and the new base times. Take a copy of
each, under a lock, once per packet.
---
 sttp/transport/DataSubscriber.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e7a21f1..0c844b0 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -167,6 +167,7 @@ type DataSubscriber struct {
 	signalIndexCache        [2]*SignalIndexCache
 	signalIndexCacheMutex   sync.Mutex
 	cacheIndex              int32
+	packetStateMutex        sync.Mutex // Guards base times and keys, used by command and data channel threads
 	timeIndex               int32
 	baseTimeOffsets         [2]int64
 	keyIVs                  [][][]byte
@@ -433,9 +434,11 @@ func (ds *DataSubscriber) setupConnection() {
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
+	ds.packetStateMutex.Lock()
 	ds.keyIVs = nil
 	ds.timeIndex = 0
 	ds.baseTimeOffsets = [2]int64{}
+	ds.packetStateMutex.Unlock()
 
 	ds.signalIndexCacheMutex.Lock()
 	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
@@ -1325,16 +1328,17 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 		timeIndex = 1
 	}
 
-	ds.timeIndex = timeIndex
-
 	var baseTimeOffsets [2]int64
 
 	baseTimeOffsets[0] = int64(binary.BigEndian.Uint64(data[4:]))
 	baseTimeOffsets[1] = int64(binary.BigEndian.Uint64(data[12:]))
 
+	ds.packetStateMutex.Lock()
+	ds.timeIndex = timeIndex
 	ds.baseTimeOffsets = baseTimeOffsets
+	ds.packetStateMutex.Unlock()
 
-	timestamp, _ := ticks.Ticks(ds.baseTimeOffsets[ds.timeIndex^1]).ToTime().MarshalText()
+	timestamp, _ := ticks.Ticks(baseTimeOffsets[timeIndex^1]).ToTime().MarshalText()
 	ds.dispatchStatusMessage("Received new base time offset from publisher: " + string(timestamp))
 }
 
@@ -1366,7 +1370,9 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	}
 
 	// Exchange keys
+	ds.packetStateMutex.Lock()
 	ds.keyIVs = keyIVs
+	ds.packetStateMutex.Unlock()
 
 	ds.dispatchStatusMessage("Successfully established new cipher keys for UDP data packet transmissions.")
 }
@@ -1400,9 +1406,12 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	data = data[1:]
 
-	if ds.keyIVs != nil {
-		// Get a local copy keyIVs - these can change at any time
-		keyIVs := ds.keyIVs
+	// Get a local copy keyIVs - these can change at any time
+	ds.packetStateMutex.Lock()
+	keyIVs := ds.keyIVs
+	ds.packetStateMutex.Unlock()
+
+	if keyIVs != nil {
 		var cipherIndex int
 		var err error
 
@@ -1603,9 +1612,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 	includeTime := ds.subscription.IncludeTime
 	index := 0
 
+	// Get a local copy of base times so that a whole packet uses the same - these can change at any time
+	ds.packetStateMutex.Lock()
+	baseTimeOffsets := ds.baseTimeOffsets
+	ds.packetStateMutex.Unlock()
+
 	for i := 0; i < len(measurements); i++ {
 		// Deserialize compact measurement format
-		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &ds.baseTimeOffsets)
+		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &baseTimeOffsets)
 		bytesDecoded, err := compactMeasurement.Decode(data[index:])
 
 		if err != nil {
-- 
2.43.0


From 1fd333ea32e19e206c87fc7e1ac0a0ab98e43ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:35:14 +0000
Subject: [PATCH 60/65] fix: convert a DateTime to Boolean in a computed column
 as other values are

A computed Boolean column was true for the Unix epoch only. Any value that is
not zero is true for all other types, and for a DateTime in an expression.
---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index e26f264..c5c1809 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -444,7 +444,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From 54d866a4d5e8c8e2dec328f6c24a9e6adc71a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:35:14 +0000
Subject: [PATCH 61/65] fix: report a non-finite value of a computed Decimal
 column as an error

The conversion of an infinity or of NaN panicked.
---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index c5c1809..6c8feaa 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -324,6 +325,10 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" expression value that is not a finite number to \"" + targetType.String() + "\" column")
+		}
+
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
-- 
2.43.0


From 805beb3b85f251eed5e51f4565f65bf1bd3afe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:37:39 +0000
Subject: [PATCH 62/65] fix: report a computed column that is defined by itself
 as an error

Reading the value of a computed column whose expression leads back to the
column, directly or by way of other computed columns, never ended: the
process ran out of stack.
---
 sttp/data/DataRow.go | 46 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 6c8feaa..4effd43 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -105,6 +105,10 @@ func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 			return nil, errors.New("failed to parse expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 		}
 
+		if isCircular(expressionTree.Root, column) {
+			return nil, errors.New("expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\" refers to itself")
+		}
+
 		dr.values[columnIndex] = expressionTree
 		return expressionTree, nil
 	}
@@ -112,6 +116,48 @@ func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 	return dr.values[columnIndex].(*ExpressionTree), nil
 }
 
+// isCircular determines if evaluating an expression leads back to one of the columns being computed.
+func isCircular(expression Expression, computing ...*DataColumn) bool {
+	switch e := expression.(type) {
+	case *ColumnExpression:
+		column := e.DataColumn()
+
+		if column == nil || !column.computed {
+			return false
+		}
+
+		for i := 0; i < len(computing); i++ {
+			if computing[i] == column {
+				return true
+			}
+		}
+
+		expressionTree, err := GenerateExpressionTree(column.Parent(), column.Expression(), true)
+
+		return err == nil && isCircular(expressionTree.Root, append(computing[:len(computing):len(computing)], column)...)
+	case *UnaryExpression:
+		return isCircular(e.Value(), computing...)
+	case *OperatorExpression:
+		return isCircular(e.LeftValue(), computing...) || isCircular(e.RightValue(), computing...)
+	case *InListExpression:
+		return isCircular(e.Value(), computing...) || isAnyCircular(e.Arguments(), computing...)
+	case *FunctionExpression:
+		return isAnyCircular(e.Arguments(), computing...)
+	default:
+		return false
+	}
+}
+
+func isAnyCircular(expressions []Expression, computing ...*DataColumn) bool {
+	for i := 0; i < len(expressions); i++ {
+		if isCircular(expressions[i], computing...) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 	expressionTree, err := dr.expressionTree(column)
 
-- 
2.43.0


From f6fa7d86fbe6715f9917b76976512d3c42e50e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:27 +0000
Subject: [PATCH 63/65] fix: accept any text as the signal reference of a
 measurement

A type after the last dash shorter than two characters caused a panic, and
text that is no signal reference was reported as an angle.
---
 sttp/transport/MeasurementMetadata.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..0b931b0 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -70,12 +70,17 @@ type MeasurementMetadata struct {
 func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind SignalKindEnum, position int) {
 	signalReference := mm.SignalReference
 	parts := strings.Split(signalReference, "-")
+	signalKind = SignalKind.Unknown
 
 	if len(parts) > 1 {
 		lastIndex := len(parts) - 1
 		typeInfo := parts[lastIndex]
-		signalKind = ParseSignalKindAcronym(typeInfo[:2])
-		position, _ = strconv.Atoi(typeInfo[2:])
+
+		if len(typeInfo) > 1 {
+			signalKind = ParseSignalKindAcronym(typeInfo[:2])
+			position, _ = strconv.Atoi(typeInfo[2:])
+		}
+
 		source = strings.Join(parts[:lastIndex], "-")
 	}
 
-- 
2.43.0


From 2c1efa9580f193d18455e73f8050875600b45438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:02 +0000
Subject: [PATCH 64/65] fix: do not wait for the data channel thread when
 unsubscribing from its callback

With a UDP data channel, Unsubscribe or Subscribe called from the measurement
callback waited for the data channel thread, which was waiting for the callback
to return. The socket is now closed without waiting. The thread for a new socket
first lets the previous one finish, and the disconnect operation still waits.
---
 sttp/transport/DataSubscriber.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 0c844b0..2a80e27 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -684,8 +684,15 @@ func (ds *DataSubscriber) openDataChannel(udpAddr *net.UDPAddr) error {
 		return err
 	}
 
+	previousThread := ds.dataChannelResponseThread
 	ds.dataChannelSocket = dataChannelSocket
 	ds.dataChannelResponseThread = thread.NewThread(func() {
+		// Let processing for any previously closed socket complete
+		if previousThread != nil {
+			previousThread.Join()
+			previousThread = nil
+		}
+
 		ds.runDataChannelResponseThread(dataChannelSocket)
 	})
 	ds.dataChannelResponseThread.Start()
@@ -693,12 +700,13 @@ func (ds *DataSubscriber) openDataChannel(udpAddr *net.UDPAddr) error {
 	return nil
 }
 
-func (ds *DataSubscriber) closeDataChannel() {
+// closeDataChannel closes any data channel socket. This function does not wait for data channel response
+// thread to complete since user may call Subscribe or Unsubscribe from a callback dispatched by this thread.
+func (ds *DataSubscriber) closeDataChannel() *thread.Thread {
 	ds.dataChannelMutex.Lock()
 	dataChannelSocket := ds.dataChannelSocket
 	dataChannelResponseThread := ds.dataChannelResponseThread
 	ds.dataChannelSocket = nil
-	ds.dataChannelResponseThread = nil
 	ds.dataChannelMutex.Unlock()
 
 	if dataChannelSocket != nil {
@@ -707,9 +715,7 @@ func (ds *DataSubscriber) closeDataChannel() {
 		}
 	}
 
-	if dataChannelResponseThread != nil {
-		dataChannelResponseThread.Join()
-	}
+	return dataChannelResponseThread
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
@@ -852,7 +858,9 @@ func (ds *DataSubscriber) shutDown(includeListener bool) {
 		ds.commandChannelResponseThread = nil
 	}
 
-	ds.closeDataChannel()
+	if dataChannelResponseThread := ds.closeDataChannel(); dataChannelResponseThread != nil {
+		dataChannelResponseThread.Join()
+	}
 
 	// Make sure no command being sent, nor any pending connection termination, can affect next connection
 	ds.writeMutex.Lock()
-- 
2.43.0


From b2292651048bc7e039be3dc9d35795734fc6104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:45 +0000
Subject: [PATCH 65/65] fix: dial and listen at IPv6 addresses

The host name and port were joined with a colon, so an IPv6 address lost the
brackets it needs and every connection attempt failed with too many colons in
address.
---
 sttp/transport/DataSubscriber.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2a80e27..3978fb9 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -347,6 +347,12 @@ func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
 	return ds.connect(hostName, port, ds.connector.currentSequence())
 }
 
+// endpoint gets the network address for a host and port. An IPv6 address can be
+// provided as the host with or without its enclosing brackets.
+func endpoint(host string, port uint16) string {
+	return net.JoinHostPort(strings.Trim(host, "[]"), strconv.Itoa(int(port)))
+}
+
 func (ds *DataSubscriber) connect(hostName string, port uint16, sequence uint32) error {
 	if ds.connected.IsSet() {
 		return errAlreadyConnected
@@ -383,7 +389,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, sequence uint32)
 	ds.connector.connectionRefused.UnSet()
 
 	// TODO: Add TLS implementation options
-	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
+	conn, err := net.Dial("tcp", endpoint(hostName, port))
 
 	if err != nil {
 		return err
@@ -523,7 +529,7 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	// TODO: Add TLS implementation options
-	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", endpoint(networkInterface, port))
 
 	if err != nil {
 		return err
-- 
2.43.0

