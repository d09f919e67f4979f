From 6dfdf3fd512683a4d060e4bcfba291dc6b567db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 01/24] fix: do not cache listeners the response does not
 contain

When the name table is not required, and always for the inbound listener, a
watched name missing from the response was stored as a nil listener and served
by Get as (nil, nil error).
---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..4bfebbb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -482,8 +482,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From 48e8bf1422d1e97ff73d4304b8e41b1e06abf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 02/24] fix: end the warm-up when the client is closed

An authentication rejection during the warm-up stopped the client while its
creator kept waiting for responses that could not come any more.
---
 core/manager/client.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 4bfebbb..8bc7f51 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -301,15 +301,21 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
-	klog.Infof("KITEX: [XDS] nds, warmup done")
+	select {
+	case <-c.cipResolver.initRequestCh:
+		klog.Infof("KITEX: [XDS] nds, warmup done")
+	case <-c.closeCh:
+	}
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
-	klog.Infof("KITEX: [XDS] lds, warmup done")
+	select {
+	case <-c.inboundInitRequestCh:
+		klog.Infof("KITEX: [XDS] lds, warmup done")
+	case <-c.closeCh:
+	}
 }
 
 // warmup sends the requests (NDS) to the xds server and waits for the response to set the lookup table.
-- 
2.43.0


From 919c687e58eb1d5407b81ef2f6aec7d2a4e7ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 03/24] fix: drop outdated requests when resubscribing, and
 send without the lock

Requests queued before the subscriptions were sent on a new stream followed
them with older sets of names. Sending them with the lock held made every
lookup hang on a stream that does not take data.
---
 core/manager/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 8bc7f51..10ca209 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -397,9 +397,15 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	// the requests still queued are superseded by the ones prepared here
+	clearRequestCh(c.reqCh, len(c.reqCh))
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
+	}
+	c.mu.Unlock()
+	// send without the lock, the stream may block
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
-- 
2.43.0


From 27285bdea6f1e157272541faf76495fd1b4b157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 04/24] fix: do not block lookups when the request queue is
 full

With the queue full (the stream stalled, or the client closed) Watch and the
receiver blocked for ever with the locks of the client and the manager held.
---
 core/manager/client.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 10ca209..d79c905 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -414,9 +414,40 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	return nil
 }
 
+// sendRequest puts the request to the channel. It is called with the lock held.
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	select {
+	case c.reqCh <- req:
+		return
+	default:
+	}
+	// The sender does not keep up. Do not block with the lock held, drop the queued requests that a later one supersedes.
+	c.compactRequestCh()
+	select {
+	case c.reqCh <- req:
+	case <-c.closeCh:
+	}
+}
+
+// compactRequestCh removes the queued requests that are followed by another one with the same type and nonce.
+func (c *xdsClient) compactRequestCh() {
+	type key struct{ url, nonce string }
+	var reqs []*discoveryv3.DiscoveryRequest
+	last := make(map[key]int)
+	for n := len(c.reqCh); n > 0; n-- {
+		select {
+		case req := <-c.reqCh:
+			last[key{req.TypeUrl, req.ResponseNonce}] = len(reqs)
+			reqs = append(reqs, req)
+		default:
+		}
+	}
+	for i, req := range reqs {
+		// keep the error detail of a NACK
+		if req.ErrorDetail != nil || last[key{req.TypeUrl, req.ResponseNonce}] == i {
+			c.reqCh <- req
+		}
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From e0cf4dc8dc8af35864de32b18985bdeadcdea373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 05/24] fix: compare the hosts of the name table ignoring case

Only the host looked up was converted to lower case, a name table with upper
case keys, or an upper case namespace or domain, never matched.
---
 core/manager/client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index d79c905..af0147a 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -95,7 +95,11 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	// host names are case-insensitive, resolveAddr looks up lower-case ones
+	r.lookupTable = make(map[string][]string, len(up))
+	for host, ips := range up {
+		r.lookupTable[strings.ToLower(host)] = ips
+	}
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -463,7 +467,8 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	// the namespace and the domain are configured in any case
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 27692e2189b465372b1745cf6c1f26d40d540b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 06/24] fix: bind hosts to listeners again when the name table
 changes

A listener stayed bound to the address the previous name table gave for its
host until the control plane happened to send the listeners again.
---
 core/manager/client.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index af0147a..6b95809 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -118,6 +118,10 @@ type xdsClient struct {
 	// "kitex-server.default.svc.cluster.local" -> "10.0.0.1"
 	cipResolver *ndsResolver
 
+	// listeners are the ones of the last accepted response, by the names used by the control plane.
+	// It is only used by the receiver.
+	listeners map[string]*xdsresource.ListenerResource
+
 	// versionMap stores the versions of different resource type.
 	versionMap map[xdsresource.ResourceType]string
 	// nonceMap stores the nonce of the recent response.
@@ -515,6 +519,19 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
+	c.listeners = res
+	c.updateListeners(resp.GetVersionInfo())
+
+	if c.closedInboundInitCh.CompareAndSwap(false, true) {
+		klog.Info("KITEX: [xds] receive inbound init request")
+		close(c.inboundInitRequestCh)
+	}
+	return nil
+}
+
+// updateListeners updates the watched listeners in the cache.
+func (c *xdsClient) updateListeners(version string) {
+	res := c.listeners
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
@@ -536,13 +553,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
-
-	if c.closedInboundInitCh.CompareAndSwap(false, true) {
-		klog.Info("KITEX: [xds] receive inbound init request")
-		close(c.inboundInitRequestCh)
-	}
-	return nil
+	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, version)
 }
 
 // handleRDS handles the rds response
@@ -616,6 +627,10 @@ func (c *xdsClient) handleNDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 	c.cipResolver.updateLookupTable(nt.NameTable)
+	// the hosts may be bound to other listeners now
+	if c.listeners != nil {
+		c.updateListeners(c.version(xdsresource.ListenerType))
+	}
 	return err
 }
 
-- 
2.43.0


From 72312cb2ed28f3661a9998346c791b15caa4c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:35 +0000
Subject: [PATCH 07/24] fix: do not cache a resource that the cleaner has
 unsubscribed meanwhile

The client filtered a response by the watched names before the manager took its
lock, a sweep in between left a resource in the cache that was not subscribed
any more and so never updated again.
---
 core/manager/client.go  | 15 +++++++++++----
 core/manager/manager.go | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 6b95809..e4abd1c 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -185,6 +185,13 @@ func (c *xdsClient) Watch(rType xdsresource.ResourceType, rName string, remove b
 	c.sendRequest(req)
 }
 
+// isWatched returns if the resource is in the watch map.
+func (c *xdsClient) isWatched(rType xdsresource.ResourceType, rName string) bool {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	return c.watchedResource[rType][rName]
+}
+
 // prepareRequest prepares a new request for the specified resource type with input version and nonce
 func (c *xdsClient) prepareRequest(rType xdsresource.ResourceType, version, nonce string, res map[string]bool) *discoveryv3.DiscoveryRequest {
 	rNames := make([]string, 0, len(res))
@@ -553,7 +560,7 @@ func (c *xdsClient) updateListeners(version string) {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, version)
+	c.resourceUpdater.updateWatched(c, xdsresource.ListenerType, filteredRes, version)
 }
 
 // handleRDS handles the rds response
@@ -574,7 +581,7 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.RouteConfigType, res, resp.GetVersionInfo())
 	return nil
 }
 
@@ -595,7 +602,7 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.ClusterType, res, resp.GetVersionInfo())
 	return nil
 }
 
@@ -616,7 +623,7 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.EndpointsType, res, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..416d6e5 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -274,7 +274,23 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.updateResource(rt, up, version)
+}
+
+// updateWatched updates the cache with the resources that are still watched by the client,
+// the cleaner may have removed some of them while the client was handling the response.
+func (m *xdsResourceManager) updateWatched(cli *xdsClient, rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	for name := range up {
+		if !cli.isWatched(rt, name) {
+			delete(up, name)
+		}
+	}
+	m.updateResource(rt, up, version)
+}
 
+func (m *xdsResourceManager) updateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From 7286b64d331341535536816816a03233955c16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 08/24] fix: expire resources that are never accessed after
 they arrive

A resource that arrived after the lookup that asked for it had timed out had no
access time and was never removed.
---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 416d6e5..f7ff83d 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -259,11 +259,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt = &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// a resource that is never accessed should expire as well
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From d23a693b1e5522e90993e1c233915c2265b3f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 09/24] fix: do not lose or drop the wake-up of a lookup

An update between the cache miss and the registration of the notifier was not
seen, the timeout of one caller removed the notifier others were waiting on, a
resource accepted before the timeout could be reported as a timeout, and one
removed again before the woken caller read it was returned as (nil, nil).
---
 core/manager/manager.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index f7ff83d..8995e15 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -55,11 +55,14 @@ type xdsResourceManager struct {
 
 // notifier is used to notify the resource update along with error
 type notifier struct {
-	ch  chan struct{}
-	err error
+	ch      chan struct{}
+	res     xdsresource.Resource
+	err     error
+	waiters int // number of the callers waiting, guarded by the lock of the manager
 }
 
-func (n *notifier) notify(err error) {
+func (n *notifier) notify(res xdsresource.Resource, err error) {
+	n.res = res
 	n.err = err
 	close(n.ch)
 }
@@ -151,6 +154,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// It may have been updated since the cache was read
+	if res, ok = m.cache[rType][rName]; ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -162,6 +170,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -174,13 +183,26 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
 				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
 		}
-		res, _ = m.getFromCache(rType, rName)
+		if res, ok = m.getFromCache(rType, rName); !ok {
+			// it has been removed again
+			res = nf.res
+		}
 		return res, nil
 	case <-ctx.Done():
-		// remove the notifier if timeout.
 		m.mu.Lock()
-		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
+		defer m.mu.Unlock()
+		select {
+		case <-nf.ch:
+			// updated before the timeout
+			if nf.err == nil {
+				return nf.res, nil
+			}
+		default:
+			// remove the notifier if nobody else is waiting.
+			if nf.waiters--; nf.waiters == 0 {
+				delete(m.notifierMap[rType], rName)
+			}
+		}
 		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
 			xdsresource.ResourceTypeToName[rType], rName)
 	}
@@ -311,7 +333,7 @@ func (m *xdsResourceManager) updateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
-			nf.notify(nil)
+			nf.notify(res, nil)
 			delete(m.notifierMap[rt], name)
 		}
 	}
-- 
2.43.0


From c8188d690812a7dc24c6c28ccd6790c9b8af7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 10/24] fix: decode the base interval of the retry back-off

It was taken from the maximum interval.
---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From 8bddc65a717fc775200c45ce209b899662d861de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 11/24] fix: find the rate limit filter wherever it is in the
 HTTP filter chain

Only the first HTTP filter was examined.
---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From 247b44e746be909606c6669b6a774b99c58b4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 12/24] fix: keep the destination port of filter chains with a
 thrift proxy

---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From b06602abdaa0e286da3bb7654f07efe8105007a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 13/24] fix: check every condition of a route on the same
 header

The last one replaced the others.
---
 core/xdsresource/matcher.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..185f283 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -49,8 +49,28 @@ type Matcher interface {
 	Match(string) bool
 }
 
+// andMatcher matches if all of its matchers do.
+type andMatcher []Matcher
+
+func (am andMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matchers map[string]Matcher
 
+// add adds a condition on the value of key, to the ones there may be already.
+func (ms Matchers) add(key string, m Matcher) {
+	if old, ok := ms[key]; ok {
+		m = andMatcher{old, m}
+	}
+	ms[key] = m
+}
+
 func (ms Matchers) Match(other map[string]string) bool {
 	for key, m := range ms {
 		if val, ok := other[key]; !ok || !m.Match(val) {
@@ -62,18 +82,18 @@ func (ms Matchers) Match(other map[string]string) bool {
 
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
-	ms := map[string]Matcher{}
+	ms := Matchers{}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
 				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
+					ms.add(header.Name, ExactMatcher(p.Exact))
 				}
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					ms.add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +103,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					ms.add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From f3ec09036a587921bcbfede076989980e058e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 14/24] fix: keep header conditions on the empty value

A route that requires a header to be empty, or to be present (any prefix),
matched calls without the header.
---
 core/xdsresource/matcher.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index 185f283..be93f6b 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -88,13 +88,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					ms.add(header.Name, ExactMatcher(p.Exact))
-				}
+				ms.add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
-				if p.Prefix != "" {
-					ms.add(header.Name, PrefixMatcher(p.Prefix))
-				}
+				ms.add(header.Name, PrefixMatcher(p.Prefix))
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
 				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
-- 
2.43.0


From 3deff4baa9dac78a890c6a939e8069d53e1b3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 15/24] fix: do not serve a nil resource for an empty load
 assignment

---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..c84dbac 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// there are no endpoints
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From dce746be99baf74c747750c75a9cf868534f9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 16/24] fix: decode every resource of a name table response

A response with an invalid resource after the first one was acknowledged.
---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..1d2407b 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.Ips
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From 199e903760c1d5565c21e6a7d60fd37c5cb1afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 17/24] fix: hand the resources in force to the update handlers
 of partial updates

---
 core/manager/manager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 8995e15..c3bbdf7 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -319,8 +319,19 @@ func (m *xdsResourceManager) updateResource(rt xdsresource.ResourceType, up map[
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		current := up
+		if !rt.RequireFullADSResponse() {
+			// the resources omitted from the update are still in force
+			current = make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+			for name, res := range m.cache[rt] {
+				current[name] = res
+			}
+			for name, res := range up {
+				current[name] = res
+			}
+		}
 		for _, handler := range handlers {
-			handler(up)
+			handler(current)
 		}
 	}
 
-- 
2.43.0


From a857c25c9e177c105305629be585927df68068ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 18/24] fix: pick weighted clusters in proportion to their
 weights

---
 xdssuite/router.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..e548e68 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -224,10 +224,11 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	// targetWeight is in [0, totalWeight), a cluster is picked for as many values as its weight
+	targetWeight := uint32(fastrand.Int63n(int64(totalWeight)))
 	for _, wc := range wcs {
 		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From a948b97b10f86b225524d6ebf0be2ced452df76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 19/24] fix: fail the resolution of a cluster whose localities
 have no endpoints

---
 xdssuite/resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..273bdc1 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -88,7 +88,7 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 		endpoints = cla
 	}
 
-	if endpoints == nil || len(endpoints.Localities) == 0 {
+	if endpoints == nil {
 		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
 	}
 	// TODO: filter localities
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From fd2eb49a8d8a97fa37e90ff3c7c63e35597951e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 20/24] fix: do not lose a limit that arrives while the server
 starts

---
 xdssuite/limiter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..ee392fc 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -62,6 +63,7 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 }
 
 type limiter struct {
+	mu      sync.Mutex // guards the limits in opt, and orders the pushes to the updater
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
@@ -71,6 +73,8 @@ func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -116,8 +120,10 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	l.opt.UpdateControl = func(u limit.Updater) {
-		u.UpdateLimit(l.opt)
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		l.updater.Store(u)
+		u.UpdateLimit(l.opt)
 	}
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-- 
2.43.0


From 6c6fa8874453a722c31c9d943c2cfd349d3d23d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 21/24] fix: add the pod IP to the instance IPs unless it is
 one of them

---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..a96b57d 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP checks if the ip is an element of the comma separated list.
+func containsIP(ips, ip string) bool {
+	for _, s := range strings.Split(ips, ",") {
+		if strings.TrimSpace(s) == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From ac90d80d1e2c9c4c4aaeaa619acfe30bfeb829c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:53 +0000
Subject: [PATCH 22/24] fix: do not read the limits unlocked when the limiter
 option is applied

The update handler is registered before Kitex applies the option, which
formats the limits; an inbound listener that arrives in between is a data
race.
---
 xdssuite/limiter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index ee392fc..e7da905 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -23,6 +23,7 @@ import (
 
 	"github.com/cloudwego/kitex/pkg/klog"
 	"github.com/cloudwego/kitex/pkg/limit"
+	"github.com/cloudwego/kitex/pkg/utils"
 	"github.com/cloudwego/kitex/server"
 
 	"github.com/kitex-contrib/xds/core/xdsresource"
@@ -127,5 +128,13 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-	return server.WithLimit(l.opt)
+	opt := server.WithLimit(l.opt)
+	apply := opt.F
+	opt.F = func(o *server.Options, di *utils.Slice) {
+		// applying the option reads the limits, which are updated from the registration on
+		l.mu.Lock()
+		defer l.mu.Unlock()
+		apply(o, di)
+	}
+	return opt
 }
-- 
2.43.0


From a8e4f3c95b83a5ec6f2d3581be610fd004d13e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 23/24] fix: keep the order of the requests that do not fit in
 the request queue

The repair of the blocked lookups took the queued requests out of the channel and put them back
while the sender was receiving from it, so a later request could be sent before an earlier one.
---
 core/manager/client.go | 63 +++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index e4abd1c..32aa2a1 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -131,6 +131,7 @@ type xdsClient struct {
 	adsClient      ADSClient
 	streamCh       chan ADSStream
 	reqCh          chan *discoveryv3.DiscoveryRequest
+	overflow       []*discoveryv3.DiscoveryRequest // requests that did not fit in reqCh
 	connectBackoff backoff.BackOff
 
 	// resourceUpdater is used to update the resource update to the cache.
@@ -249,6 +250,7 @@ func (c *xdsClient) sender(as ADSStream) {
 				continue
 			}
 		case req := <-c.reqCh:
+			c.refillRequestCh()
 			if currStream != nil {
 				err := currStream.Send(req)
 				if err != nil {
@@ -400,7 +402,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	// reset nonce map and request
 	c.mu.Lock()
 	c.nonceMap = make(map[xdsresource.ResourceType]string)
-	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.clearRequests()
 	c.mu.Unlock()
 
 	// notify others to use the new stream
@@ -413,7 +415,7 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
 	// the requests still queued are superseded by the ones prepared here
-	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.clearRequests()
 	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
 		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
@@ -431,38 +433,47 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 
 // sendRequest puts the request to the channel. It is called with the lock held.
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	select {
-	case c.reqCh <- req:
-		return
-	default:
+	if len(c.overflow) == 0 {
+		select {
+		case c.reqCh <- req:
+			return
+		default:
+		}
 	}
-	// The sender does not keep up. Do not block with the lock held, drop the queued requests that a later one supersedes.
-	c.compactRequestCh()
-	select {
-	case c.reqCh <- req:
-	case <-c.closeCh:
+	// The sender does not keep up. Do not block with the lock held, keep the request until the channel has room.
+	for i := len(c.overflow) - 1; i >= 0; i-- {
+		last := c.overflow[i]
+		if last.TypeUrl != req.TypeUrl {
+			continue
+		}
+		// it supersedes the last one of the same type and nonce, but a NACK has to be sent
+		if last.ResponseNonce == req.ResponseNonce && last.ErrorDetail == nil && req.ErrorDetail == nil {
+			c.overflow[i] = req
+			return
+		}
+		break
 	}
+	c.overflow = append(c.overflow, req)
 }
 
-// compactRequestCh removes the queued requests that are followed by another one with the same type and nonce.
-func (c *xdsClient) compactRequestCh() {
-	type key struct{ url, nonce string }
-	var reqs []*discoveryv3.DiscoveryRequest
-	last := make(map[key]int)
-	for n := len(c.reqCh); n > 0; n-- {
+// refillRequestCh moves the requests that did not fit to the channel.
+func (c *xdsClient) refillRequestCh() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	for len(c.overflow) > 0 {
 		select {
-		case req := <-c.reqCh:
-			last[key{req.TypeUrl, req.ResponseNonce}] = len(reqs)
-			reqs = append(reqs, req)
+		case c.reqCh <- c.overflow[0]:
+			c.overflow = c.overflow[1:]
 		default:
+			return
 		}
 	}
-	for i, req := range reqs {
-		// keep the error detail of a NACK
-		if req.ErrorDetail != nil || last[key{req.TypeUrl, req.ResponseNonce}] == i {
-			c.reqCh <- req
-		}
-	}
+}
+
+// clearRequests removes all requests not sent yet. It is called with the lock held.
+func (c *xdsClient) clearRequests() {
+	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.overflow = nil
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From 13572a70669b49dbf654be6e4fa13a667d79f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 24/24] fix: keep the watch of an expired resource while
 lookups are waiting for it

---
 core/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index c3bbdf7..c67f83b 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -224,6 +224,10 @@ func (m *xdsResourceManager) cleaner() {
 					if !ok {
 						continue
 					}
+					// a lookup is waiting for the resource, the watch should be kept
+					if _, waiting := m.notifierMap[rt][rName]; waiting {
+						continue
+					}
 					// should not delete the reserved resource
 					if !isReservedResource(rt, rName) && time.Since(t) > defaultCacheExpireTime {
 						delete(m.meta[rt], rName)
-- 
2.43.0

