"""Planted bugs: what is changed, and a scenario for the real broker that shows it."""
M = "akasa-core/src/protocols/mqtt/"


def C(k, cid, v=5, cs=1, auto=1, **kw):
    return dict(t="connect", k=k, cid=cid, v=v, cs=cs, auto=auto, **kw)


def F(f, q=0, **kw):
    return dict(f=f.split("/"), q=q, **kw)


def S(k, *fs, pid=1, **kw):
    return dict(t="sub", k=k, pid=pid, fs=[F(*f) if isinstance(f, tuple) else f if isinstance(f, dict) else F(f) for f in fs], **kw)


def U(k, *fs, pid=1):
    return dict(t="unsub", k=k, pid=pid, fs=[f if isinstance(f, dict) else F(f) for f in fs])


def P(k, topic, pl, qos=0, **kw):
    return dict(t="pub", k=k, lv=topic.split("/"), pl=pl, qos=qos, **kw)


def A(ms, step=500):
    return dict(t="adv", ms=ms, step=step)


def T(t, k, **kw):
    return dict(t=t, k=k, **kw)


SEEDS = []


def seed(id, prop, edits, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, **kw))


seed("route-parent-lost", "P01", [(M + "route.rs", "self.content.read().is_empty() && nodes.is_empty()", "nodes.is_empty()")],
     "one client subscribed to a topic filter, another to a filter one level below; the second one unsubscribes",
     "removing the last subscription below a filter also removes the subscriptions of the filter itself",
     ops=[C(1, "a"), C(2, "b"), C(3, "p"), S(1, "x"), S(2, "x/y"), U(2, "x/y"), P(3, "x", 7)],
     expect='check("the subscriber of x gets the message", got(1) == [7])')

seed("route-hash-parent", "P01", [(M + "route.rs", "                && !node.content.read().is_empty()\n            {", "                && !node.content.read().clients.is_empty()\n            {")],
     "only shared subscriptions to x/#, and a message on the parent level x itself",
     "a message on the parent level of x/# is not delivered to a shared subscription of x/#",
     ops=[C(1, "a"), C(3, "p"), S(1, F("x/#", 0, sh="g")), P(3, "x", 7)],
     expect='check("delivered", got(1) == [7])')

seed("overlap-qos", "P02", [(M + "v5/packet/publish.rs", "                filters.push(subscribe_filter.clone());\n                *max_qos = cmp::max(*max_qos, *subscribe_qos);",
                              "                filters.push(subscribe_filter.clone());\n                *max_qos = cmp::min(*max_qos, *subscribe_qos);")],
     "one client whose overlapping subscriptions were granted different QoS, MQTT 5 publisher",
     "the merged message is sent at the lowest instead of the highest granted QoS",
     ops=[C(1, "a"), C(3, "p"), S(1, ("x/#", 0), ("x/y", 2)), P(3, "x/y", 7, 2, pid=4)],
     expect='check("delivered at QoS 2", [o["qos"] for o in out(1, "publish")] == [2])')

seed("rap-last-wins", "P02", [(M + "v5/message.rs", "retain_as_published |= sub.options.retain_as_published;", "retain_as_published = sub.options.retain_as_published;")],
     "overlapping subscriptions of one client, only the first matching one with Retain As Published",
     "the RETAIN flag of the merged message follows the last matching subscription only",
     ops=[C(1, "a"), C(3, "p"), S(1, F("x/y", 0, rap=1), F("x/#", 0, rap=0)), P(3, "x/y", 7, 0, retain=1)],
     expect='check("RETAIN kept", [o["retain"] for o in out(1, "publish")] == [1])')

seed("shared-resub-qos", "P03", [(M + "route.rs", "self.items[*idx].1 = item.1;", "self.items[*idx].1 = self.items[*idx].1.min(item.1);")],
     "a member of a shared group subscribes again to the same shared filter with a higher QoS",
     "the higher QoS granted by the second SUBSCRIBE is not used for the messages of the group",
     ops=[C(1, "a"), C(3, "p"), S(1, F("x", 0, sh="g")), S(1, F("x", 1, sh="g"), pid=2), P(3, "x", 7, 1, pid=4)],
     expect='check("delivered at QoS 1", [o["qos"] for o in out(1, "publish")] == [1])')

seed("shared-unsub-plain", "P03", [(M + "route.rs", """            if let Some(name) = group {
                if let Some(shared_clients) = content.groups.get_mut(name) {
                    shared_clients.remove(&id);
                    if shared_clients.is_empty() {
                        content.groups.remove(name);
                    }
                }
            } else {
                content.clients.remove(&id);
            }""", """            content.clients.remove(&id);
            if let Some(name) = group
                && let Some(shared_clients) = content.groups.get_mut(name)
            {
                shared_clients.remove(&id);
                if shared_clients.is_empty() {
                    content.groups.remove(name);
                }
            }""")],
     "a client with both the plain and the shared subscription of the same filter unsubscribes the shared one",
     "unsubscribing $share/g/x also ends the delivery for the client's own subscription to x",
     ops=[C(1, "a"), C(3, "p"), S(1, "x"), S(1, F("x", 0, sh="g"), pid=2), U(1, F("x", 0, sh="g"), pid=3), P(3, "x", 7)],
     expect='check("the plain subscription still works", got(1) == [7])')

seed("retain-clear-subtree", "P04", [(M + "retain.rs", "            remove_node = node.is_empty();\n", "            remove_node = node.content.is_none();\n")],
     "retained messages at x and at x/y, then the one at x is cleared",
     "clearing a retained message forgets every retained message below it",
     ops=[C(3, "p"), P(3, "x", 1, retain=1), P(3, "x/y", 2, retain=1), P(3, "x", 0, retain=1), C(1, "a"), S(1, "#")],
     expect='check("x/y is still there", got(1) == [2])')

seed("retain-plus-short", "P04", [(M + "retain.rs", """                if let Some((filter_item, rest_items)) = filter_items.map(split_topic) {
                    for node in nodes.values() {
                        node.get_matches(filter_item, rest_items, wildcard_first, retains);
                    }
                } else {""", """                if let Some((filter_item, rest_items)) = filter_items.map(split_topic) {
                    for node in nodes.values().filter(|node| !node.nodes.read().is_empty()) {
                        node.get_matches(filter_item, rest_items, wildcard_first, retains);
                    }
                } else {""")],
     "a filter like +/# and a retained message whose topic ends at the level of the +",
     "a new subscription to +/# does not get the retained message of a one-level topic without sub-topics",
     ops=[C(3, "p"), P(3, "x", 1, retain=1), P(3, "y/z", 2, retain=1), C(1, "a"), S(1, "+/#")],
     expect='check("both retained messages", sorted(got(1)) == [1, 2])')

seed("resend-pubrel", "P05", [(M + "pending.rs", "                PendingPacketStatus::Pubrec { last_sent, .. } => *last_sent = 0,\n", "                PendingPacketStatus::Pubrec { .. } => {}\n")],
     "a client that reconnects right after its PUBREC, before the PUBCOMP",
     "PUBREL is not sent again when the session is resumed (only after the resend timeout)",
     ops=[C(1, "a", cs=0, auto=0, se=100), C(3, "p"), S(1, ("x", 2)), P(3, "x", 7, 2, pid=4), T("pubrec", 1, pl=7), T("cut", 1), C(2, "a", cs=0, auto=0, se=100)],
     expect='check("PUBREL again", len(out(2, "pubrel")) == 1)')

seed("shrink-loses", "P05", [(M + "pending.rs", "        while let Some(PendingPacketStatus::Complete) = self.packets.front() {\n            self.packets.pop_front();", "        while let Some(PendingPacketStatus::Complete) = self.packets.front() {\n            self.packets.pop_front();\n            if let Some(PendingPacketStatus::Pubrec { .. }) = self.packets.front() {\n                self.packets.pop_front();\n            }"),
     (M + "pending.rs", "        let mut changed = false;\n", "        let mut changed = self.packets.is_empty();\n")],
     "two QoS 2 messages in flight, PUBREC for the second before the first one is complete",
     "completing a delivery drops a following one that waits for PUBCOMP: its PUBREL is not repeated after a reconnect",
     ops=[C(1, "a", cs=0, auto=0, se=100), C(3, "p"), S(1, ("x", 2)), P(3, "x", 7, 2, pid=4), P(3, "x", 8, 2, pid=5), T("pubrec", 1, pl=8), T("pubrec", 1, pl=7), T("pubcomp", 1, pl=7),
          P(3, "x", 9, 2, pid=6), T("cut", 1), C(2, "a", cs=0, auto=0, se=100)],
     expect='check("PUBREL again", len(out(2, "pubrel")) == 1)')

seed("qos2-forget-v5", "P06", [(M + "v5/message.rs", "        mem::swap(&mut self.qos2_pids, &mut qos2_pids);\n", "        if self.disconnected().is_some() {\n            mem::swap(&mut self.qos2_pids, &mut qos2_pids);\n        }\n")],
     "an MQTT 5 publisher whose connection breaks before PUBREL; it resumes and repeats the PUBLISH with DUP",
     "the identifiers of received QoS 2 messages are forgotten on resume, the message is published twice",
     ops=[C(1, "a"), S(1, "x"), C(2, "p", cs=0, auto=0, se=100), P(2, "x", 7, 2, pid=4), T("cut", 2), C(3, "p", cs=0, auto=0, se=100), P(3, "x", 7, 2, pid=4, dup=1)],
     expect='check("published once", got(1) == [7])')

seed("qos2-forget-v3", "P06", [(M + "v3/message.rs", "        mem::swap(&mut self.qos2_pids, &mut qos2_pids);\n", "        if self.disconnected {\n            mem::swap(&mut self.qos2_pids, &mut qos2_pids);\n        }\n")],
     "an MQTT 3 publisher whose connection breaks before PUBREL; it resumes and repeats the PUBLISH with DUP",
     "the identifiers of received QoS 2 messages are forgotten on resume, the message is published twice",
     ops=[C(1, "a"), S(1, "x"), C(2, "p", v=4, cs=0, auto=0), P(2, "x", 7, 2, pid=4), T("cut", 2), C(3, "p", v=4, cs=0, auto=0), P(3, "x", 7, 2, pid=4, dup=1)],
     expect='check("published once", got(1) == [7])')

seed("window-resume", "P07", [(M + "v5/packet/connect.rs", """    session
        .pending_packets
        .set_max_inflight(session.receive_max);
""", """    if !session_present {
        session
            .pending_packets
            .set_max_inflight(session.receive_max);
    }
""")],
     "a session resumed by a connection with a smaller Receive Maximum while several messages wait",
     "the Receive Maximum of the former connection stays in force",
     ops=[C(1, "a", cs=0, auto=0, se=100, rm=5), S(1, ("x", 1)), T("cut", 1), C(3, "p"), P(3, "x", 7, 1, pid=4), P(3, "x", 8, 1, pid=5), P(3, "x", 9, 1, pid=6),
          C(2, "a", cs=0, auto=0, se=100, rm=2)],
     expect='check("two in flight at most", len(got(2)) == 2)')

seed("pid-restart", "P07", [(M + "v5/message.rs", "            server_packet_id: self.server_packet_id,\n", "            server_packet_id: if self.subscribes.is_empty() {\n                self.server_packet_id\n            } else {\n                Pid::default()\n            },\n")],
     "a session resumed with unacknowledged messages, then further QoS 1 messages",
     "the packet identifiers restart at 1 while messages with these identifiers are still in flight",
     ops=[C(1, "a", cs=0, auto=0, se=100), S(1, ("x", 1)), C(3, "p"), P(3, "x", 7, 1, pid=4), T("cut", 1), C(2, "a", cs=0, auto=0, se=100), P(3, "x", 8, 1, pid=5)],
     expect='check("different identifiers", len({o["pid"] for o in out(2, "publish")}) == 2)')

seed("full-channel-order", "P08", [(M + "online_loop.rs", """                        consume_cnt -= 1;
                        info.msgs.push_front(msg);""", """                        consume_cnt -= 1;
                        info.msgs.push_back(msg);""")],
     "a receiver slower than its publisher: its channel of 8 messages is full while more are published",
     "messages are delivered in another order than published when the receiver's channel was full",
     ops=[C(1, "a"), S(1, "x"), C(3, "p"), T("hold", 1), dict(t="burst", ops=[P(3, "x", n) for n in range(1, 60)]), T("unhold", 1), T("stat", 0)],
     expect='check("in order", got(1) == sorted(got(1)) and len(got(1)) == 59)')

seed("resume-drops-v3", "P09", [(M + "v3/message.rs", "        mem::swap(&mut self.pending_packets, &mut pending_packets);\n", "        if self.protocol == Protocol::V311 || self.pending_packets.len() < 2 {\n            mem::swap(&mut self.pending_packets, &mut pending_packets);\n        }\n")],
     "an MQTT 3.1 client that comes back with two or more queued messages",
     "the queued messages of an MQTT 3.1 session are lost on resume",
     ops=[C(1, "a", v=3, cs=0, auto=0), S(1, ("x", 1)), T("cut", 1), C(3, "p"), P(3, "x", 7, 1, pid=4), P(3, "x", 8, 1, pid=5), C(2, "a", v=3, cs=0, auto=0)],
     expect='check("queued messages arrive", got(2) == [7, 8])')

seed("expiry-old-timer", "P10", [(M + "v5/message.rs", "            if !session.connected && session.connected_time == Some(connected_time) {", "            if !session.connected && session.connected_time >= Some(connected_time) {")],
     "a session disconnected, resumed and disconnected again before the first expiry timer fires",
     "the timer of the first disconnection ends the session early",
     ops=[C(1, "a", cs=0, se=11), S(1, ("x", 1)), T("cut", 1), A(6000), C(2, "a", cs=0, se=11), T("cut", 2), A(8000), C(3, "a", cs=0, se=11)],
     expect='check("session still there", [o["sp"] for o in out(3, "connack")] == [1])')

seed("disc-expiry-ignored", "P10", [(M + "v5/packet/connect.rs", "        if session.session_expiry_interval == 0 && value > 0 {", "        if value > session.session_expiry_interval {")],
     "a DISCONNECT that raises a nonzero Session Expiry Interval",
     "a client may not extend the life of its session with DISCONNECT any more",
     ops=[C(1, "a", cs=0, se=5), S(1, ("x", 1)), T("disc", 1, se=101), A(20000), C(2, "a", cs=0, se=11)],
     expect='check("session still there", [o["sp"] for o in out(2, "connack")] == [1])')

seed("takeover-refused-offline", "P11", [(M + "v3/message.rs", "        mem::swap(&mut self.subscribes, &mut subscribes);\n", "        if self.pending_packets.is_empty() || self.last_will.is_some() {\n            mem::swap(&mut self.subscribes, &mut subscribes);\n        }\n"),
      (M + "v3/message.rs", "        let mut pending_packets = PendingPackets::new(0, 0, 0);\n        let mut qos2_pids = HashMap::new();\n        let mut subscribes = HashMap::new();\n", "        let mut subscribes = HashMap::new();\n        let mut pending_packets = PendingPackets::new(0, 0, 0);\n        let mut qos2_pids = HashMap::new();\n")],
     "an MQTT 3 client that takes over its own connection while unacknowledged messages are in flight",
     "the session handed over has lost its subscriptions",
     ops=[C(1, "a", v=4, cs=0, auto=0), S(1, ("x", 1)), C(3, "p"), P(3, "x", 7, 1, pid=4), C(2, "a", v=4, cs=0, auto=0), P(3, "x", 8, 1, pid=5)],
     expect='check("subscription kept", 8 in got(2))')

seed("takeover-inflight", "P11", [(M + "v5/message.rs", "        mem::swap(&mut self.subscribes, &mut subscribes);\n        mem::swap(&mut self.broadcast_packets, &mut broadcast_packets);\n        SessionState {",
                                    "        if self.disconnected().is_none() {\n            mem::swap(&mut self.subscribes, &mut subscribes);\n        }\n        mem::swap(&mut self.broadcast_packets, &mut broadcast_packets);\n        SessionState {")],
     "a take-over at the moment the old connection has just been disconnected by the server or the client, but is not offline yet",
     "the session handed over has no subscriptions",
     ops=[C(1, "a", cs=0, se=100, auto=1), S(1, "x"), T("hold", 1), P(1, "$x", 3), C(2, "a", cs=0, se=100), C(3, "p"), P(3, "x", 7)],
     expect='check("still subscribed", got(2) == [7])')

seed("will-old-timer", "P12", [(M + "v5/message.rs", """            if !session.connected
                && session.connected_time == Some(connected_time)
                && send_will""", """            if !session.connected
                && session.connected_time.is_some()
                && send_will""")],
     "a client with a delayed will disconnects, resumes and disconnects again before the first delay ends",
     "the will is published when the delay of the former disconnection ends",
     ops=[C(9, "w"), S(9, "w"), C(1, "a", cs=0, se=100, wlv=["w"], wpl=7, wd=5), T("cut", 1), A(3000), C(2, "a", cs=0, se=100, wlv=["w"], wpl=8, wd=5), T("cut", 2), A(3000),
          T("stat", 0)],
     expect='check("no will yet", got(9) == [])')

seed("will-delay-nosession", "P12", [(M + "v5/message.rs", "if delay_interval == 0 || session.session_expiry_interval == 0 {", "if delay_interval == 0 {")],
     "a will with a delay on a connection whose session ends with it",
     "the will is never published",
     ops=[C(9, "w"), S(9, "w"), C(1, "a", cs=1, wlv=["w"], wpl=7, wd=5), T("cut", 1), A(20000)],
     expect='check("will published", got(9) == [7])')

seed("alias-evict", "P18", [(M + "v5/packet/common.rs", """    if let Some((previous_topic, _)) = aliases_by_alias.remove(&alias) {
        aliases_by_topic.remove(&previous_topic);
    }
""", "    aliases_by_alias.remove(&alias);\n")],
     "more topics than the client's Topic Alias Maximum, then the first topic again",
     "an alias that has been given to another topic is used for the old one",
     ops=[C(1, "a", tam=1), S(1, "#"), C(3, "p"), P(3, "x", 1), P(3, "y", 2), P(3, "x", 3)],
     expect='check("topics", topics(1) == ["x", "y", "x"])')

seed("alias-max", "P19", [(M + "v5/packet/publish.rs", "        if alias > global.config.topic_alias_max {", "        if alias > global.config.topic_alias_max.max(1) + 1 {")],
     "a topic alias exactly one above the announced maximum",
     "the alias is accepted",
     cfg=dict(topic_alias_max=3),
     ops=[C(3, "p"), P(3, "x", 1, ta=4)],
     expect='check("refused", [o["code"] for o in out(3, "disconnect")] == [148])')

seed("offline-count", "P21", [("akasa-core/src/state.rs", "            pair.value_mut().1 = false;\n", "            pair.value_mut().1 = self.clients.len() > 3;\n")],
     "a fourth client that goes offline and whose session ends later",
     "the online client counter is decremented twice",
     ops=[C(1, "a"), C(2, "b"), C(3, "c"), C(4, "d", cs=0, se=5), T("cut", 4), A(7000), T("stat", 0)],
     expect='check("three online", st[-1]["online"] == 3 and st[-1]["clients"] == 3)')

seed("queue-expiry-edge", "P24", [(M + "v5/packet/common.rs", "if *last_sent == 0 && passed_secs >= value as u64 {", "if *last_sent == 0 && passed_secs > value as u64 {")],
     "a queued message whose expiry interval has passed exactly when the client comes back",
     "an expired message is delivered with an expiry interval of 0",
     ops=[C(1, "a", cs=0, se=100), S(1, ("x", 1)), T("cut", 1), C(3, "p"), P(3, "x", 7, 1, pid=4, exp=4), A(4000), C(2, "a", cs=0, se=100)],
     expect='check("expired", got(2) == [])')

seed("will-corr-data", "P25", [(M + "v5/message.rs", "            correlation_data: properties.correlation_data,\n", "            correlation_data: properties\n                .correlation_data\n                .filter(|_| properties.response_topic.is_none()),\n"),
                               (M + "v5/message.rs", "            response_topic: properties.response_topic,\n", "            response_topic: properties.response_topic.clone(),\n")],
     "a will with both a response topic and correlation data",
     "the will is published without its correlation data",
     ops=[C(9, "w"), S(9, "w"), C(1, "a", cs=1, wlv=["w"], wpl=7, wrt="r", wcd="6162"), T("cut", 1)],
     expect='check("correlation data", [o["cd"] not in ("", None) for o in out(9, "publish")] == [True])')
