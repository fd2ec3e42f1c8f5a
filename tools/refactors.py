#!/usr/bin/env python3
"""Development aid: edits of /repo that keep its behaviour, and what the verifier makes of them.
refactors.py [NAME...]   (works on a copy of the sources; proof part only)"""
import importlib.machinery, importlib.util, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
S = '/tmp/refac'
D, E, ST, SR, MS, H, L, A, SE, SS, SET, PW = ('src/mqtt/transport/packet_decoder.rs', 'src/mqtt/transport/packet_encoder.rs', 'src/mqtt/transport/mqtt_bytes_stream.rs',
    'src/broker/messaging/subscriptions_repository.rs', 'src/broker/messaging/messaging_service.rs', 'src/broker/client_packet_handler.rs', 'src/mqtt/listener.rs',
    'src/broker/authentication.rs', 'src/broker/session/session_entity.rs', 'src/broker/session/session_repository.rs', 'src/settings/mod.rs', 'ratelmq-passwd/src/main.rs')

R = {}
def r(name, props, file, *subs, last=False):
    R[name] = (props.split(), file, subs, last)

# decoder
r('d-helper-string', 'C01', D, ('    let client_id = buffer.get_string().await?;\n    remaining_length = take_length(remaining_length, client_id.len() as u64 + 2)?;',
   '    let (client_id, left) = take_string(buffer, remaining_length).await?;\n    remaining_length = left;'),
  ('fn malformed(message', 'async fn take_string(buffer: &mut MqttBytesReadStream, remaining_length: u64) -> Result<(String, u64), Error> {\n    let text = buffer.get_string().await?;\n    let left = take_length(remaining_length, text.len() as u64 + 2)?;\n    Ok((text, left))\n}\n\nfn malformed(message'))
r('d-reorder', 'C01', D, ('    let dup = flags.contains(FixedHeaderFlags::DUP);\n    let retain = flags.contains(FixedHeaderFlags::RETAIN);\n', '    let retain = flags.contains(FixedHeaderFlags::RETAIN);\n    let dup = flags.contains(FixedHeaderFlags::DUP);\n'))
r('d-remaining-while', 'C01', D, ('''    loop {
        let byte = buffer.get_u8().await?;
        if multiplier''', '''    let mut more = true;
    while more {
        let byte = buffer.get_u8().await?;
        if multiplier'''), ('''        if continuation_bit == 0 {
            break;
        }
''', '''        more = continuation_bit != 0;
'''))
r('d-remaining-return', 'C01', D, ('''        if continuation_bit == 0 {
            break;
        }
    }

    Ok(remaining_length)
''', '''        if continuation_bit == 0 {
            return Ok(remaining_length);
        }
    }
'''))
r('d-subscribe-loop', 'C01', D, ('''    while remaining_length > 0 {
        let topic = buffer.get_string().await?;
        let qos''', '''    loop {
        if remaining_length == 0 {
            break;
        }
        let topic = buffer.get_string().await?;
        let qos'''))
r('d-qos-helper', 'C01', D, ('''        let qos = buffer.get_u8().await?;
        if qos > 2 {
            return Err(tokio::io::Error::new(
                ErrorKind::InvalidData,
                "Malformed QoS",
            ));
        }
''', '''        let qos = buffer.get_u8().await?;
        validate_qos(qos)?;
'''), ('fn malformed(message', '''fn validate_qos(qos: u8) -> Result<(), Error> {
    if qos > 2 {
        return Err(malformed("Malformed QoS"));
    }
    Ok(())
}

fn malformed(message'''))
r('d-take-checked', 'C01', D, ('''    if field_length > remaining_length {
        return Err(malformed("Malformed remaining length"));
    }

    Ok(remaining_length - field_length)
''', '''    remaining_length
        .checked_sub(field_length)
        .ok_or_else(|| malformed("Malformed remaining length"))
'''))
r('d-take-match', 'C01', D, ('''    if field_length > remaining_length {
        return Err(malformed("Malformed remaining length"));
    }

    Ok(remaining_length - field_length)
''', '''    match remaining_length.checked_sub(field_length) {
        Some(left) => Ok(left),
        None => Err(malformed("Malformed remaining length")),
    }
'''))
r('d-validate-if', 'C01', D, ('''    if actual == expected {
        Ok(())
    } else {
        Err(malformed("Malformed remaining length"))
    }
''', '''    if actual != expected {
        return Err(malformed("Malformed remaining length"));
    }
    Ok(())
'''))
r('d-flags-vars', 'C01', D, ('    let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {', '    let user_name = if user_name {'), ('    let password = if connect_flags.contains(ConnectFlags::PASSWORD) {', '    let password = if password {'), ('    let will_message = if connect_flags.contains(ConnectFlags::WILL) {', '    let will_message = if will {'))
# stream
r('s-min', 'C04', ST, ('''            let wait_for_bytes = {
                if remaining_length > self.read_buffer.capacity() {
                    // a fully consumed buffer may have no capacity left
                    self.read_buffer.capacity().max(1)
                } else {
                    remaining_length
                }
            };
''', '''            // a fully consumed buffer may have no capacity left
            let wait_for_bytes = remaining_length.min(self.read_buffer.capacity().max(1));
'''), last=True)
r('s-loop', 'C04', ST, ('''        let mut remaining_length = size;

        while remaining_length > 0 {''', '''        let mut remaining_length = size;

        loop {
            if remaining_length == 0 {
                break;
            }'''), last=True)
r('s-eof', 'C04', ST, ('''            let connection_closed = read_bytes_num == 0; // end of file
            if connection_closed {
                let clean_shutdown = self.read_buffer.is_empty();
                return if clean_shutdown {
                    Err(tokio::io::Error::new(
                        ErrorKind::ConnectionReset,
                        "connection reset by peer",
                    ))
                } else {
                    // closed while sending
                    Err(tokio::io::Error::new(
                        ErrorKind::ConnectionReset,
                        "connection interrupted, reset by peer",
                    ))
                };
            }''', '''            if read_bytes_num == 0 {
                let message = match self.read_buffer.is_empty() {
                    true => "connection reset by peer",
                    false => "connection interrupted, reset by peer",
                };
                return Err(tokio::io::Error::new(ErrorKind::ConnectionReset, message));
            }'''), last=True)
r('s-put-done', 'C05', ST, ('''        let mut remaining_size = bytes.len();

        while remaining_size > 0 {
            let bytes_to_write = {
                if remaining_size > self.write_buffer.capacity() {
                    self.write_buffer.capacity().max(1)
                } else {
                    remaining_size
                }
            };''', '''        while !bytes.is_empty() {
            let capacity = self.write_buffer.capacity();
            let bytes_to_write = if bytes.len() > capacity { capacity.max(1) } else { bytes.len() };'''), ('''            self.write_buffer.put(bytes.split_to(bytes_to_write));

            remaining_size -= bytes_to_write;
''', '''            self.write_buffer.put(bytes.split_to(bytes_to_write));
'''), last=True)
# encoder
r('e-length-while', 'C05', E, ('''    loop {
        let mut encoded_byte: u8 = (remaining_length % 128) as u8;
        remaining_length /= 128;

        if remaining_length > 0 {
            encoded_byte |= 128;
        }

        buffer.put_u8(encoded_byte).await?;

        if remaining_length == 0 {
            break;
        }
    }
    Ok(())
''', '''    while remaining_length >= 128 {
        buffer.put_u8((remaining_length % 128) as u8 | 128).await?;
        remaining_length /= 128;
    }
    buffer.put_u8(remaining_length as u8).await
'''))
r('e-publish-match', 'C05', E, ('''    if packet.message.qos > QoS::AtMostOnce {
        remaining_length += 2 /* packet id */;
    }

    remaining_length += packet.message.payload.len() as u64;
''', '''    remaining_length += packet.message.payload.len() as u64;

    if packet.message.qos != QoS::AtMostOnce {
        remaining_length += 2 /* packet id */;
    }
'''))
r('e-write-helper', 'C05', E, ('''    buffer.put_u8(packet.session_present as u8).await?;
    buffer.put_u8(packet.return_code.clone() as u8).await?;

    Ok(())
''', '''    put_two(buffer, packet.session_present as u8, packet.return_code.clone() as u8).await
'''), ('async fn write_publish(', '''async fn put_two(buffer: &mut MqttBytesWriteStream, a: u8, b: u8) -> Result<(), Error> {
    buffer.put_u8(a).await?;
    buffer.put_u8(b).await
}

async fn write_publish('''))
r('e-suback-iter', 'C05', E, ('packet.session_present as u8', 'u8::from(packet.session_present)'))
# subscriptions
r('m-node-helper', 'C09', SR, ('''        let segments: Vec<&str> = subscription.topic().split("/").collect();
        for segment in segments {
            node = node
                .children
                .entry(segment.to_string())
                .or_insert(SubscriptionNode::new());
        }
        if''', '''        node = Self::descend(node, subscription.topic());
        if'''), ('''    fn remove_client(''', '''    fn descend<'a>(node: &'a mut SubscriptionNode, topic: &str) -> &'a mut SubscriptionNode {
        let mut node = node;
        for segment in topic.split("/") {
            node = node
                .children
                .entry(segment.to_string())
                .or_insert(SubscriptionNode::new());
        }
        node
    }

    fn remove_client('''))
r('m-split-char', 'C08', SR, ('''let segments: Vec<&str> = topic.split("/").collect();
        for segment in segments {
            // nodes''', '''for segment in topic.split('/') {
            // nodes'''))
r('m-plus-first', 'C08', SR, ('''                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                };

                if let Some(plus) = node.children.get("+") {
                    descendant_nodes.push(plus);
                };
''', '''                if let Some(plus) = node.children.get("+") {
                    descendant_nodes.push(plus);
                };

                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                };
'''))
r('m-hash-for', 'C08', SR, ('''                    node.clients
                        .iter()
                        .for_each(|client_id| client_ids.push(client_id.clone()))
''', '''                    for client_id in &node.clients {
                        client_ids.push(client_id.clone());
                    }
'''))
r('m-hash-extend', 'C08', SR, ('''                    node.clients
                        .iter()
                        .for_each(|client_id| client_ids.push(client_id.clone()))
''', '''                    client_ids.extend(node.clients.iter().cloned());
'''))
r('m-last-for', 'C08', SR, ('''        nodes
            .iter()
            .flat_map(|&node| &node.clients)
            .for_each(|client_id| client_ids.push(client_id.clone()));
''', '''        for node in nodes {
            for client_id in &node.clients {
                client_ids.push(client_id.clone());
            }
        }
'''))
r('m-remove-iflet', 'C10', SR, ('''            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));

            nodes''', '''            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.remove(p);
            }

            nodes'''))
r('m-remove-retain', 'C10', SR, ('''            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));

            nodes''', '''            node.clients.retain(|c| c != client_id);

            nodes'''))
r('m-contains-any', 'C09', SR, ('!node.clients.contains(client_id)', '!node.clients.iter().any(|c| c == client_id)'))
r('m-entry-or-insert-with', 'C09', SR, ('.or_insert(SubscriptionNode::new());\n        }\n        if', '.or_insert_with(SubscriptionNode::new);\n        }\n        if'))
r('m-children-loop', 'C10', SR, ('            nodes.extend(node.children.values_mut());', '            for child in node.children.values_mut() {\n                nodes.push(child);\n            }'))
# service
r('b-owned-map', 'C13', MS, ('''        match self.sessions.get(client_id) {
            Some(session) => session.sender().same_channel(sender),
            None => false,
        }
''', '''        if let Some(session) = self.sessions.get(client_id) {
            return session.sender().same_channel(sender);
        }
        false
'''))
r('b-owned-mapor', 'C13', MS, ('''        match self.sessions.get(client_id) {
            Some(session) => session.sender().same_channel(sender),
            None => false,
        }
''', '''        self.sessions.get(client_id).map_or(false, |s| s.sender().same_channel(sender))
'''))
r('b-senders-iflet', 'C13', MS, ('''                match self.sessions.get(c) {
                    Some(session) => {
                        senders.push(session.sender().clone());
                    }
                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                    }
                }
''', '''                if let Some(session) = self.sessions.get(c) {
                    senders.push(session.sender().clone());
                } else {
                    warn!("Tried to send message, but session for client {:?} not found", c);
                }
'''))
r('b-senders-filter', 'C13', MS, ('''        let mut senders = Vec::new();

        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {
            for c in &client_ids {
                match self.sessions.get(c) {
                    Some(session) => {
                        senders.push(session.sender().clone());
                    }
                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                    }
                }
            }
        }

        senders
''', '''        self.subscriptions
            .subscribed_clients(topic)
            .unwrap_or_default()
            .iter()
            .filter_map(|c| self.sessions.get(c))
            .map(|session| session.sender().clone())
            .collect()
'''))
r('b-run-arm-inline', 'C12', MS, ('''                    let result = self.session_exists(&client_id);
                    let _ = resp.send(result);
''', '''                    resp.send(self.session_exists(&client_id)).ok();
'''))
r('b-run-helper', 'C12', MS, ('''        while let Some(op) = rx.recv().await {
            match op {''', '''        while let Some(op) = rx.recv().await {
            self.handle(op).await;
        }
        debug!("Stopped Messaging Manager");
    }

    async fn handle(&mut self, op: MessagingOperation) {
        {
            match op {'''), ('''        }
        debug!("Stopped Messaging Manager");
    }

    pub fn session_exists''', '''        }
    }

    pub fn session_exists'''))
r('b-lost-order', 'C10', MS, ('''        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(client_id)
''', '''        let session = self.sessions.delete(client_id);
        self.subscriptions.connections_lost(client_id);
        session
'''))
r('b-exists-get', 'C13', SS, ('        self.sessions.contains_key(client_id)', '        self.sessions.get(client_id).is_some()'))
r('b-insert-let', 'C11', SS, ('        self.sessions.insert(session.client_id().clone(), session)', '        let client_id = session.client_id().clone();\n        self.sessions.insert(client_id, session)'))
# handler
r('h-ask-helper', 'C14 C17', H, ('''        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::ConnectionDisconnected { client_id, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let maybe_session = rx.await.unwrap();
''', '''        let (tx, rx) = oneshot::channel();
        self.ask(MessagingOperation::ConnectionDisconnected { client_id, resp: tx }).await;
        let maybe_session = rx.await.unwrap();
'''), ('''    async fn on_connection_lost(''', '''    async fn ask(&self, op: MessagingOperation) {
        self.messaging_tx.send(op).await.unwrap();
    }

    async fn on_connection_lost('''))
r('h-ack-helper', 'C14 C17', H, ('''        sender
            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
            .await
            .ok(); // the client may be gone already
''', '''        Self::answer(&sender, UnsubAck(unsub_ack)).await;
'''), ('''    async fn on_connection_lost(''', '''    async fn answer(sender: &Sender<ServerEvent>, packet: ControlPacket) {
        // the client may be gone already
        sender.send(ServerEvent::ControlPacket(packet)).await.ok();
    }

    async fn on_connection_lost('''))
r('h-let-underscore', 'C14 C17', H, ('sender.send(event).await.ok();', 'let _ = sender.send(event).await;'))
r('h-ping-early', 'C14', H, ('''        if session_present {
            sender
                .send(ServerEvent::ControlPacket(PingResp))
                .await
                .ok(); // the client may be gone already
        } else {
            error!(
                "Received PING from not existing session with client id {}",
                client_id
            );
            sender.send(ServerEvent::Disconnect).await.ok();
        }
''', '''        if !session_present {
            error!("Received PING from not existing session with client id {}", client_id);
            sender.send(ServerEvent::Disconnect).await.ok();
            return;
        }

        sender.send(ServerEvent::ControlPacket(PingResp)).await.ok();
'''))
r('h-event-var', 'C14', H, ('''        for sender in senders_to_publish {
            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
            sender.send(event).await.ok();
        }
''', '''        let event = ServerEvent::ControlPacket(Publish(publish));
        for sender in &senders_to_publish {
            sender.send(event.clone()).await.ok();
        }
'''))
r('h-match-auth', 'C16', H, ('''            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
                info!("Client {} authentication error: {:?}", &user_name, &e);
''', '''            let outcome = self.identity_provider.authenticate(&user_name, &password);
            if outcome.is_err() {
                info!("Client {} authentication error", &user_name);
'''))
r('h-session-match', 'C15', H, ('            if let Some(session) = maybe_session {\n                // session.set_last_activity(Utc::now());\n                true\n            } else {', '            if maybe_session.is_some() {\n                true\n            } else {'))
# listener
r('l-read-match', 'C19', L, ('''        if let Ok(packet) = read_packet(&mut read_stream).await {
            trace!("Read the first packet: {:?}", &packet);

            if let ControlPacket::Connect(mut c) = packet {''', '''        if let Ok(first) = read_packet(&mut read_stream).await {
            trace!("Read the first packet: {:?}", &first);

            if let ControlPacket::Connect(mut c) = first {'''))
r('l-id-helper', 'C19', L, ('''                client_id = if c.client_id.is_empty() {
                    trace!("Client did not provide client id, id will be generated");
                    Uuid::new_v4().to_string()
                } else {
                    c.client_id.clone()
                };

                c.client_id = client_id.clone();
''', '''                if c.client_id.is_empty() {
                    trace!("Client did not provide client id, id will be generated");
                    c.client_id = Uuid::new_v4().to_string();
                }
                client_id = c.client_id.clone();
'''))
r('l-write-iflet', 'C20', L, ('''            match event {
                ServerEvent::ControlPacket(packet) => {
                    trace!("Writing packet: {:?}", &packet);
                    if let Err(e) = write_packet(&mut write_stream, packet).await {
                        error!("Error while writing packet: {:?}", &e);
                    }
                }
                ServerEvent::Disconnect => {
                    break;
                }
            }
''', '''            if let ServerEvent::ControlPacket(packet) = event {
                trace!("Writing packet: {:?}", &packet);
                if let Err(e) = write_packet(&mut write_stream, packet).await {
                    error!("Error while writing packet: {:?}", &e);
                }
            } else {
                break;
            }
'''))
# authentication
r('a-match', 'C18', A, ('''            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;
''', '''            let (username, password) = line.split_once(':').ok_or(InvalidEntry)?;
'''))
r('a-find', 'C18', A, ('''            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;
''', '''            let (username, password) = match line.split_once(':') {
                Some(parts) => parts,
                None => return Err(InvalidEntry),
            };
'''))
r('a-new-map', 'C18', A, ('HashMap::with_capacity(credentials.lines().count())', 'HashMap::new()'))
r('a-auth-match', 'C18', A, ('''        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| InvalidPassword)
''', '''        match Argon2::default().verify_password(password.as_bytes(), &parsed_hash) {
            Ok(()) => Ok(()),
            Err(_) => Err(InvalidPassword),
        }
'''))
r('a-helper-parse', 'C18', A, ('''            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;
''', '''            let (username, password) = parse_line(line)?;
'''), ('impl IdentityProvider for', '''fn parse_line(line: &str) -> Result<(&str, &str), FileIdentityManagerError> {
    line.split_once(':').ok_or(InvalidEntry)
}

impl IdentityProvider for'''))
# session
r('k-ge', 'C22', SE, ('&keep_alive_expires_at <= now', 'now >= &keep_alive_expires_at'))
r('k-deref', 'C22', SE, ('&keep_alive_expires_at <= now', '*now >= keep_alive_expires_at'))
r('k-int', 'C22', SE, ('(self.keep_alive_seconds as f32 * 1.5) as i64', 'self.keep_alive_seconds as i64 * 3 / 2'))
r('k-if', 'C22', SE, ('''        if self.keep_alive_seconds == 0 {
            return false;
        }
''', '''        let unlimited = self.keep_alive_seconds == 0;
        if unlimited {
            return false;
        }
'''))
# settings
r('c-chain', 'C25', SET, ('''        config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;
        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;
''', '''        let file = File::with_name(config_filename).format(FileFormat::Toml);
        let environment = Environment::with_prefix("ratelmq").separator("__");
        config.merge(file)?.merge(environment)?;
'''))
r('c-vars', 'C25', SET, ('''        config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;
        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;
''', '''        let file = File::with_name(config_filename).format(FileFormat::Toml);
        config.merge(file)?;
        let environment = Environment::with_prefix("ratelmq").separator("__");
        config.merge(environment)?;
'''))
# tool
r('p-if', 'C23', PW, ('''        let text = match delete {
            true => "".to_string(),
            false => build_entry(user_name, password).replace("$", "$$"), // for regexp
        };
''', '''        let text = if delete {
            String::new()
        } else {
            build_entry(user_name, password).replace("$", "$$") // for regexp
        };
'''))
r('p-helper', 'C23', PW, ('''        let separator = match credentials.is_empty() || credentials.ends_with('\\n') {
            true => "",
            false => "\\n",
        };
''', '''        let separator = separator_after(credentials.as_str());
'''), ('fn build_arguments', '''fn separator_after(text: &str) -> &'static str {
    if text.is_empty() || text.ends_with('\\n') {
        ""
    } else {
        "\\n"
    }
}

fn build_arguments'''))
r('p-push', 'C23', PW, ('''        Some(credentials + separator + build_entry(user_name, password).as_str())
''', '''        let mut updated = credentials;
        updated.push_str(separator);
        updated.push_str(&build_entry(user_name, password));
        Some(updated)
'''))
r('p-format', 'C23', PW, ('''        Some(credentials + separator + build_entry(user_name, password).as_str())
''', '''        Some(format!("{}{}{}", credentials, separator, build_entry(user_name, password)))
'''))
r('p-pattern', 'C23', PW, ('''    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\\n?");
''', '''    let regexp_format = format!(r"^{}:.*\\n?", regex::escape(user_name));
'''))
r('p-match-order', 'C23', PW, ('''    let file_name = arguments.value_of(ARGUMENT_NAME_FILE).unwrap();
    let user_name = arguments.value_of(ARGUMENT_NAME_USER).unwrap();
''', '''    let user_name = arguments.value_of(ARGUMENT_NAME_USER).unwrap();
    let file_name = arguments.value_of(ARGUMENT_NAME_FILE).unwrap();
'''))

# helpers extracted
r('s-bytes-len', 'C04', ST, ("""        let mut remaining_length = size;

        while remaining_length > 0 {
            // todo""", """        while bytes.len() < size {
            let remaining_length = size - bytes.len();
            // todo"""), ("            remaining_length -= wait_for_bytes;\n", ""), last=True)
r('d-helper-length', 'C01', D, ("""        let byte = buffer.get_u8().await?;
        if multiplier""", """        let byte = next_byte(buffer).await?;
        if multiplier"""), ('fn malformed(message', """async fn next_byte(stream: &mut MqttBytesReadStream) -> Result<u8, Error> {
    stream.get_u8().await
}

fn malformed(message"""))
r('d-helper-will', 'C01', D, ("""    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
        let will_qos_bits = (connect_flags & ConnectFlags::WILL_QOS).bits >> 3;
        if will_qos_bits > 2 {
            return Err(malformed("Malformed will QoS"));
        }
""", """    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
        let will_qos_bits = (connect_flags & ConnectFlags::WILL_QOS).bits >> 3;
        check_qos_bits(will_qos_bits, "Malformed will QoS")?;
"""), ('fn malformed(message', """fn check_qos_bits(bits: u8, message: &'static str) -> Result<(), Error> {
    if bits <= 2 {
        return Ok(());
    }
    Err(malformed(message))
}

fn malformed(message"""))
r('e-helper-id', 'C05', E, ('packet.session_present as u8', 'bit(packet.session_present)'), ('async fn write_publish(', """fn bit(value: bool) -> u8 {
    if value {
        1
    } else {
        0
    }
}

async fn write_publish("""))
r('h-session-helper', 'C14 C15', H, ("""        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::ConnectionDisconnected { client_id, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let maybe_session = rx.await.unwrap();
""", """        let maybe_session = self.take_session(client_id).await;
"""), ("""    async fn on_connection_lost(""", """    async fn take_session(&self, client_id: ClientId) -> Option<Session> {
        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::ConnectionDisconnected { client_id, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        rx.await.unwrap()
    }

    async fn on_connection_lost("""))
r('m-match-helper', 'C08', SR, ('                if let Some(direct) = node.children.get(segment) {\n', '                if let Some(direct) = Self::child(node, segment) {\n'), ("""    fn remove_client(""", """    fn child<'a>(node: &'a SubscriptionNode, segment: &str) -> Option<&'a SubscriptionNode> {
        node.children.get(segment)
    }

    fn remove_client("""))
r('a-auth-helper', 'C18', A, ("""            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;
""", """            let (username, password) = parse_entry(line)?;
"""), ("impl IdentityProvider for", """fn parse_entry(line: &str) -> Result<(&str, &str), FileIdentityManagerError> {
    line.split_once(':').ok_or(InvalidEntry)
}

impl IdentityProvider for"""))
r('a-auth-match', 'C18', A, ("""        let password_hash = self
            .passwords_by_username
            .get(username)
            .ok_or(UserNotFound)?;
""", """        let password_hash = match self.passwords_by_username.get(username) {
            Some(hash) => hash,
            None => return Err(UserNotFound),
        };
"""))

U = '''            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
            //'''
r('m-unsub-retain', 'C09', SR, (U, '''            node.clients.retain(|c| *c != *client_id);
            //'''))
r('m-unsub-swap', 'C09', SR, (U, '''            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.swap_remove(p);
            }
            //'''))
r('m-remove-swap', 'C10', SR, (U.replace('//', '').rstrip() + '\n\n            nodes', '''            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.swap_remove(p);
            }

            nodes'''))
r('m-unsub-lookup', 'C09', SR, ('''            for segment in segments {
                node = node
                    .children
                    .entry(segment.to_string())
                    .or_insert(SubscriptionNode::new());
            }

            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
''', '''            let mut known = true;
            for segment in segments {
                match node.children.get_mut(segment) {
                    Some(child) => node = child,
                    None => {
                        known = false;
                        break;
                    }
                }
            }

            if known {
                node.clients
                    .iter()
                    .position(|c| c == client_id)
                    .map(|p| node.clients.remove(p));
            }
'''))
r('l-spawn-let', 'C19 C20', L, ('        tokio::spawn(async move {\n            Self::connection_write_loop', '        let _writer = tokio::spawn(async move {\n            Self::connection_write_loop'))
r('l-one-helper', 'C19 C20', L, ('''        let (server_event_tx, server_event_rx) = mpsc::channel(32);

        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);

        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
        });
''', '''        let server_event_tx = Self::start_writer(tcp_write);
'''), ('''    async fn connection_read_loop(''', '''    fn start_writer(tcp_write: tokio::net::tcp::OwnedWriteHalf) -> Sender<ServerEvent> {
        let (server_event_tx, server_event_rx) = mpsc::channel(32);
        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);
        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
        });
        server_event_tx
    }

    async fn connection_read_loop('''))

# the application
AP = 'src/application.rs'
LOOP = '''    for bind_address in settings.mqtt.listeners_tcp {
        let listener = MqttListener::bind(
            bind_address.as_str(),
            client_tx.clone(),
            ctrl_c_tx.subscribe(),
        )
        .await
        .unwrap();

        listeners.push(tokio::spawn(listener.start_accepting()));
    }
'''
r('a-iter', 'C28', AP, ('in settings.mqtt.listeners_tcp {', 'in settings.mqtt.listeners_tcp.iter() {'))
r('a-ref', 'C28', AP, ('in settings.mqtt.listeners_tcp {', 'in &settings.mqtt.listeners_tcp {'), ('bind_address.as_str()', 'bind_address'))
r('a-into', 'C28', AP, ('in settings.mqtt.listeners_tcp {', 'in settings.mqtt.listeners_tcp.into_iter() {'), ('bind_address.as_str()', '&bind_address'))
r('a-index', 'C28', AP, ('    for bind_address in settings.mqtt.listeners_tcp {', '''    let addresses = &settings.mqtt.listeners_tcp;
    for i in 0..addresses.len() {
        let bind_address = &addresses[i];'''))
r('a-rev', 'C28', AP, ('in settings.mqtt.listeners_tcp {', 'in settings.mqtt.listeners_tcp.iter().rev() {'))
r('a-async-block', 'C28', AP, ('tokio::spawn(manager.run())', 'tokio::spawn(async move { manager.run().await })'))
r('a-task-spawn', 'C28', AP, ('tokio::spawn(manager.run())', 'tokio::task::spawn(manager.run())'))
r('a-order', 'C28', AP, ('    let manager_future = tokio::spawn(manager.run());\n\n    let messaging_service_future = tokio::spawn(messaging_service.run(messaging_rx));\n', '    let messaging_service_future = tokio::spawn(messaging_service.run(messaging_rx));\n    let manager_future = tokio::spawn(manager.run());\n'))
r('a-let-future', 'C28', AP, ('let manager_future = tokio::spawn(manager.run());', 'let manager_task = manager.run();\n    let manager_future = tokio::spawn(manager_task);'))
r('a-inline-service', 'C28', AP, ('    let messaging_service = MessagingService::new();\n', ''), ('tokio::spawn(messaging_service.run(messaging_rx))', 'tokio::spawn(MessagingService::new().run(messaging_rx))'))
r('a-capacity', 'C28', AP, ('mpsc::channel(32);\n\n    // let', 'mpsc::channel(CAPACITY);\n\n    // let'), ('pub async fn run(', 'const CAPACITY: usize = 32;\n\npub async fn run('))
r('a-helper', 'C28', AP, (LOOP, '''    for bind_address in settings.mqtt.listeners_tcp {
        let listener = listen(bind_address.as_str(), client_tx.clone(), ctrl_c_tx.subscribe()).await;
        listeners.push(tokio::spawn(listener.start_accepting()));
    }
'''), ('pub async fn run(', '''async fn listen(address: &str, events: mpsc::Sender<crate::mqtt::events::ClientEvent>, stop: broadcast::Receiver<()>) -> MqttListener {
    MqttListener::bind(address, events, stop).await.unwrap()
}

pub async fn run('''))
r('a-helper-all', 'C28', AP, (LOOP, '''    for bind_address in &settings.mqtt.listeners_tcp {
        listeners.push(start_listener(bind_address, &client_tx, &ctrl_c_tx).await);
    }
'''), ('pub async fn run(', '''async fn start_listener(
    address: &str,
    events: &mpsc::Sender<crate::mqtt::events::ClientEvent>,
    stop: &broadcast::Sender<()>,
) -> tokio::task::JoinHandle<()> {
    let listener = MqttListener::bind(address, events.clone(), stop.subscribe()).await.unwrap();
    tokio::spawn(listener.start_accepting())
}

pub async fn run('''))
r('a-shutdown-helper', 'C28', AP, ('    signal::ctrl_c().await.unwrap();\n', '    wait_for_signal().await;\n'), ('pub async fn run(', '''async fn wait_for_signal() {
    signal::ctrl_c().await.unwrap();
}

pub async fn run('''))
r('a-expect', 'C28', AP, ('Settings::new(config_filename).unwrap()', 'Settings::new(config_filename).expect("invalid settings")'))
r('a-match-bind', 'C28', AP, ('        .await\n        .unwrap();\n\n        listeners.push(tokio::spawn(listener.start_accepting()));', '''        .await;
        match listener {
            Ok(listener) => listeners.push(tokio::spawn(listener.start_accepting())),
            Err(e) => panic!("Cannot bind: {}", e),
        }'''))
r('a-bind-q', 'C28', L, ('TcpListener::bind(address).await.unwrap();', 'TcpListener::bind(address).await?;'))
r('a-bind-direct', 'C28', L, ('''        let mqtt_listener = MqttListener {
            listener,
            client_event_tx,
            ctrl_c_rx,
        };
        Ok(mqtt_listener)''', '''        Ok(Self {
            ctrl_c_rx,
            client_event_tx,
            listener,
        })'''))
r('a-builder', 'C28', AP, ('''    let mut listeners = Vec::new();
''', '''    let mut listeners = Vec::with_capacity(settings.mqtt.listeners_tcp.len());
'''))

# continue
r('h-continue', 'C14', H, ('            sender.send(event).await.ok();\n        }', """            if sender.send(event).await.is_err() {
                debug!("gone");
                continue;
            }
        }"""))
r('h-match-continue', 'C15', H, ('            let return_code = rx.await.unwrap();\n\n            return_codes.push(return_code);', """            let code = match rx.await {
                Ok(code) => code,
                Err(_) => continue,
            };
            return_codes.push(code);"""))
r('m-let-continue', 'C08', SR, ("""                if let Some(node) = node.children.get("#") {
                    node.clients
                        .iter()
                        .for_each(|client_id| client_ids.push(client_id.clone()))
                }
""", """                let Some(node) = node.children.get("#") else {
                    continue;
                };
                node.clients
                    .iter()
                    .for_each(|client_id| client_ids.push(client_id.clone()));
"""))
# a second round, over all files
LOOKUP = """            let segments: Vec<&str> = topic.split("/").collect();
            for segment in segments {
                node = node
                    .children
                    .entry(segment.to_string())
                    .or_insert(SubscriptionNode::new());
            }
"""
r('n-split-for', 'C08', SR, ("""        let segments: Vec<&str> = topic.split("/").collect();
        for segment in segments {
            // nodes""", """        for segment in topic.split("/") {
            // nodes"""))
r('n-split-for-sub', 'C09', SR, (LOOKUP, """            for segment in topic.split("/") {
                node = node
                    .children
                    .entry(segment.to_string())
                    .or_insert(SubscriptionNode::new());
            }
"""))
r('n-node-fn', 'C09', SR, (LOOKUP, '            let node = Self::find_or_create(&mut self.root, topic);\n'), ('            let mut node = &mut self.root;\n', ''),
  ('    pub fn disconnected(', """    fn find_or_create<'a>(root: &'a mut SubscriptionNode, topic: &str) -> &'a mut SubscriptionNode {
        let mut node = root;
        for segment in topic.split('/') {
            node = node
                .children
                .entry(segment.to_string())
                .or_insert_with(SubscriptionNode::new);
        }
        node
    }

    pub fn disconnected("""))
r('n-or-default', 'C09', SR, ('.or_insert(SubscriptionNode::new());\n        }', '.or_insert_with(|| SubscriptionNode::new());\n        }'))
r('n-descend-extend', 'C08', SR, ("""                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                };

                if let Some(plus) = node.children.get("+") {
                    descendant_nodes.push(plus);
                };
""", """                descendant_nodes.extend(node.children.get(segment));
                descendant_nodes.extend(node.children.get("+"));
"""))
r('n-keys-loop', 'C08', SR, ("""                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                };

                if let Some(plus) = node.children.get("+") {
                    descendant_nodes.push(plus);
                };
""", """                for key in [segment, "+"] {
                    if let Some(child) = node.children.get(key) {
                        descendant_nodes.push(child);
                    }
                }
"""))
r('n-flat-clients', 'C08', SR, ("""        nodes
            .iter()
            .flat_map(|&node| &node.clients)
            .for_each(|client_id| client_ids.push(client_id.clone()));
""", """        for node in nodes {
            client_ids.extend_from_slice(&node.clients);
        }
"""))
r('n-flat-cloned', 'C08', SR, ("""        nodes
            .iter()
            .flat_map(|&node| &node.clients)
            .for_each(|client_id| client_ids.push(client_id.clone()));
""", """        client_ids.extend(nodes.iter().flat_map(|node| node.clients.iter().cloned()));
"""))
r('n-remove-helper', 'C10', SR, ("""            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));

            nodes.extend""", """            node.remove(client_id);

            nodes.extend"""), ('impl Drop for SubscriptionNode', """impl SubscriptionNode {
    fn remove(&mut self, client_id: &ClientId) {
        if let Some(position) = self.clients.iter().position(|c| c == client_id) {
            self.clients.remove(position);
        }
    }
}

impl Drop for SubscriptionNode"""))
r('n-lost-alias', 'C10', SR, ("""    pub fn connections_lost(&mut self, client_id: &ClientId) {
        Self::remove_client(&mut self.root, client_id);""", """    pub fn connections_lost(&mut self, client_id: &ClientId) {
        self.disconnected(client_id);"""))
r('n-insert-remove', 'C11', MS, ("""        self.subscriptions.connections_lost(session.client_id());
        self.sessions.insert(session)""", """        let client_id = session.client_id().clone();
        self.subscriptions.connections_lost(&client_id);
        let replaced = self.sessions.insert(session);
        replaced"""))
r('n-senders-recipients', 'C13', MS, ("""        let mut senders = Vec::new();

        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {""", """        let mut senders = Vec::new();

        let client_ids = match self.subscriptions.subscribed_clients(topic) {
            Some(client_ids) => client_ids,
            None => return senders,
        };
        {"""))
r('n-owned-isomeand', 'C13', MS, ("""        match self.sessions.get(client_id) {
            Some(session) => session.sender().same_channel(sender),
            None => false,
        }""", """        self.sessions
            .get(client_id)
            .is_some_and(|session| session.sender().same_channel(sender))"""))
r('n-run-reply', 'C12', MS, ("""                    let result = self.session_count();
                    let _ = resp.send(result);""", """                    Self::reply(resp, self.session_count());"""), ("""    pub fn session_exists(""", """    fn reply<T>(resp: Responder<T>, result: T) {
        let _ = resp.send(result);
    }

    pub fn session_exists("""))
r('n-run-loop', 'C12', MS, ("""        while let Some(op) = rx.recv().await {
            match op {""", """        loop {
            let op = match rx.recv().await {
                Some(op) => op,
                None => break,
            };
            match op {"""))
r('n-exists-let', 'C12', MS, ('                    let result = self.disconnect(&client_id);\n                    let _ = resp.send(result);', '                    let session = self.disconnect(&client_id);\n                    if resp.send(session).is_err() {\n                        debug!("nobody waits");\n                    }'))
r('n-handler-dispatch', 'C14 C17 C21', H, ("""                        match event {

                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
                            ClientEvent::ControlPacket(client_id, packet, tx) => {
                                self.on_packet(client_id, packet, tx).await;
                            }
                            ClientEvent::Disconnected(_client_id) => {}
                            ClientEvent::ConnectionLost(client_id, tx) => {
                                self.on_connection_lost(client_id, tx).await;
                            }
                        }
""", """                        self.on_event(event).await;
"""), ("""    async fn on_packet(""", """    async fn on_event(&mut self, event: ClientEvent) {
        match event {
            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
            ClientEvent::ControlPacket(client_id, packet, tx) => {
                self.on_packet(client_id, packet, tx).await
            }
            ClientEvent::Disconnected(_) => {}
            ClientEvent::ConnectionLost(client_id, tx) => self.on_connection_lost(client_id, tx).await,
        }
    }

    async fn on_packet("""))
r('n-owns-match', 'C17', H, ("""        if !self.owns_session(&client_id, &tx).await {
            warn!""", """        let owner = self.owns_session(&client_id, &tx).await;
        if owner == false {
            warn!"""))
r('n-lost-wrap', 'C17', H, ("""        if !self.owns_session(&client_id, &sender).await {
            return; // disconnected, rejected or replaced by a newer connection
        }

        info!("Client {:?} disconnected unexpectedly", &client_id);

        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::ConnectionLost { client_id, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let maybe_session = rx.await.unwrap();
""", """        if self.owns_session(&client_id, &sender).await {
            info!("Client {:?} disconnected unexpectedly", &client_id);

            let (tx, rx) = oneshot::channel();
            self.messaging_tx
                .send(MessagingOperation::ConnectionLost { client_id, resp: tx })
                .await
                .unwrap();
            rx.await.unwrap();
        }
"""))
r('n-auth-helper', 'C16', H, ("""        if let Some(user_name) = packet.user_name {
            let password = packet.password.unwrap_or_default();
            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
                info!("Client {} authentication error: {:?}", &user_name, &e);

                let conn_ack""", """        {
            if !self.authenticated(packet.user_name, packet.password) {
                let conn_ack"""), ("""    async fn on_disconnect(""", """    fn authenticated(&self, user_name: Option<String>, password: Option<String>) -> bool {
        match user_name {
            None => true,
            Some(user_name) => {
                let password = password.unwrap_or_default();
                match self.identity_provider.authenticate(&user_name, &password) {
                    Ok(_) => true,
                    Err(e) => {
                        info!("Client {} authentication error: {:?}", &user_name, &e);
                        false
                    }
                }
            }
        }
    }

    async fn on_disconnect("""))
r('n-reject-helper', 'C16', H, ("""                let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
                sender
                    .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
                    .await
                    .ok(); // the client may be gone already
                sender.send(ServerEvent::Disconnect).await.ok();
                return;""", """                Self::reject(&sender).await;
                return;"""), ("""    async fn on_disconnect(""", """    async fn reject(sender: &Sender<ServerEvent>) {
        let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
        sender
            .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
            .await
            .ok(); // the client may be gone already
        sender.send(ServerEvent::Disconnect).await.ok();
    }

    async fn on_disconnect("""))
r('n-forward-helper', 'C14', H, ("""        for sender in senders_to_publish {
            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
            sender.send(event).await.ok();
        }""", """        Self::forward(senders_to_publish, publish).await;"""), ("""    async fn on_disconnect(""", """    async fn forward(senders: Vec<Sender<ServerEvent>>, publish: PublishPacket) {
        for sender in &senders {
            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
            sender.send(event).await.ok();
        }
    }

    async fn on_disconnect("""))
r('n-subscribe-one', 'C15', H, ("""            let (tx, rx) = oneshot::channel();
            let op = MessagingOperation::Subscribe { client_id: client_id.clone(), subscription, resp: tx };

            self.messaging_tx.send(op).await.unwrap();
            let return_code = rx.await.unwrap();

            return_codes.push(return_code);""", """            return_codes.push(self.subscribe_one(client_id, subscription).await);"""), ("""    async fn on_disconnect(""", """    async fn subscribe_one(
        &self,
        client_id: &ClientId,
        subscription: crate::mqtt::subscription::Subscription,
    ) -> crate::mqtt::packets::suback::SubAckReturnCode {
        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::Subscribe { client_id: client_id.clone(), subscription, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        rx.await.unwrap()
    }

    async fn on_disconnect("""))
r('n-ask-generic', 'C14 C15 C17', H, ("""        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::Unsubscribe { client_id: client_id.clone(), topics: unsubscribe.topics, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let _ = rx.await.unwrap();
""", """        let topics = unsubscribe.topics;
        self.ask(|resp| MessagingOperation::Unsubscribe { client_id: client_id.clone(), topics, resp })
            .await;
"""), ("""    async fn on_disconnect(""", """    async fn ask<T>(&self, op: impl FnOnce(oneshot::Sender<T>) -> MessagingOperation) -> T {
        let (tx, rx) = oneshot::channel();
        if self.messaging_tx.send(op(tx)).await.is_err() {
            panic!("the messaging service has ended");
        }
        match rx.await {
            Ok(answer) => answer,
            Err(_) => panic!("no answer"),
        }
    }

    async fn on_disconnect("""))
r('n-ping-match', 'C14', H, ("""        if session_present {
            sender
                .send(ServerEvent::ControlPacket(PingResp))
                .await
                .ok(); // the client may be gone already
        } else {
            error!(
                "Received PING from not existing session with client id {}",
                client_id
            );
            sender.send(ServerEvent::Disconnect).await.ok();
        }""", """        let event = match session_present {
            true => ServerEvent::ControlPacket(PingResp),
            false => {
                error!("Received PING from not existing session with client id {}", client_id);
                ServerEvent::Disconnect
            }
        };
        sender.send(event).await.ok();"""))

# a third round: transport, listener, log-ins, settings, tool
r('o-length-for', 'C01', D, ("""    loop {
        let byte = buffer.get_u8().await?;
        if multiplier""", """    let mut more = true;
    while more {
        let byte = buffer.get_u8().await?;
        if multiplier"""), ("""        if continuation_bit == 0 {
            break;
        }""", """        more = continuation_bit != 0;"""))
r('o-length-shift', 'C01', D, ("""        remaining_length += (byte & 127) as u64 * multiplier;""", """        let digit = u64::from(byte & 0x7f);
        remaining_length += digit * multiplier;"""))
r('o-length-mod', 'C01', D, ("""        remaining_length += (byte & 127) as u64 * multiplier;""", """        remaining_length += (byte % 128) as u64 * multiplier;"""))
r('o-length-ge', 'C01', D, ("""        if continuation_bit == 0 {
            break;
        }""", """        if byte < 128 {
            break;
        }"""))
r('o-length-const', 'C01', D, ('if multiplier > 128 * 128 * 128 {', 'if multiplier > MAX_MULTIPLIER {'), ('pub async fn decode_remaining_length', 'const MAX_MULTIPLIER: u64 = 128 * 128 * 128;\n\npub async fn decode_remaining_length'))
r('o-flags-helper', 'C02', D, ("""            validate_first_byte(first_byte, PACKET_TYPE_PING_REQ << 4)?;
            validate_remaining_length(remaining_length, 0)?;
            ControlPacket::PingReq""", """            validate_empty(first_byte, PACKET_TYPE_PING_REQ, remaining_length)?;
            ControlPacket::PingReq"""), ("""            validate_first_byte(first_byte, PACKET_TYPE_DISCONNECT << 4)?;
            validate_remaining_length(remaining_length, 0)?;
            ControlPacket""", """            validate_empty(first_byte, PACKET_TYPE_DISCONNECT, remaining_length)?;
            ControlPacket"""), ('fn malformed(', """fn validate_empty(first_byte: u8, packet_type: u8, remaining_length: u64) -> Result<(), Error> {
    validate_first_byte(first_byte, packet_type << 4)?;
    validate_remaining_length(remaining_length, 0)
}

fn malformed("""))
r('o-optional-helper', 'C01 C02 C03', D, ("""    let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
        let user_name = buffer.get_string().await?;
        remaining_length = take_length(remaining_length, user_name.len() as u64 + 2)?;
        Some(user_name)
    } else {
        None
    };

    let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
        // todo: allow non-utf8 bytes?
        let password = buffer.get_string().await?;
        remaining_length = take_length(remaining_length, password.len() as u64 + 2)?;
        Some(password)
    } else {
        None
    };
""", """    let user_name =
        optional_string(buffer, connect_flags.contains(ConnectFlags::USERNAME), &mut remaining_length).await?;
    let password =
        optional_string(buffer, connect_flags.contains(ConnectFlags::PASSWORD), &mut remaining_length).await?;
"""), ('fn malformed(', """async fn optional_string(
    buffer: &mut MqttBytesReadStream,
    present: bool,
    remaining_length: &mut u64,
) -> Result<Option<String>, Error> {
    if !present {
        return Ok(None);
    }

    let text = buffer.get_string().await?;
    *remaining_length = take_length(*remaining_length, text.len() as u64 + 2)?;
    Ok(Some(text))
}

fn malformed("""))
r('o-connect-checks', 'C02', D, ("""    if connect_flags.contains(ConnectFlags::RESERVED)
        || (!will && connect_flags.intersects(will_options))
        || (password && !user_name)
    {
        return Err(malformed("Malformed connect flags"));
    }
""", """    if connect_flags.contains(ConnectFlags::RESERVED) {
        return Err(malformed("Malformed connect flags"));
    }
    if !will && connect_flags.intersects(will_options) {
        return Err(malformed("Malformed connect flags"));
    }
    if password && !user_name {
        return Err(malformed("Malformed connect flags"));
    }
"""))
r('o-qos-match', 'C02', D, ("""    if qos_bits > 2 {
        return Err(malformed("Malformed QoS"));
    }
    let qos = QoS::from_bits(qos_bits);
""", """    let qos = match qos_bits {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        2 => QoS::ExactlyOnce,
        _ => return Err(malformed("Malformed QoS")),
    };
"""))
r('o-id-match', 'C01', D, ("""    let packet_id = if qos > QoS::AtMostOnce {
        remaining_length = take_length(remaining_length, 2)?;
        Some(buffer.get_u16().await?)
    } else {
        None
    };
""", """    let mut packet_id = None;
    if qos != QoS::AtMostOnce {
        packet_id = Some(buffer.get_u16().await?);
        remaining_length = take_length(remaining_length, 2)?;
    }
"""))
r('o-subscribe-helper', 'C01 C03', D, ("""        let topic = buffer.get_string().await?;
        let qos = buffer.get_u8().await?;
        if qos > 2 {
            return Err(tokio::io::Error::new(
                ErrorKind::InvalidData,
                "Malformed QoS",
            ));
        }

        remaining_length = take_length(
            remaining_length,
            topic.len() as u64 + 3u64, /* 2 topic length + QoS*/
        )?;

        let subscription = Subscription::new(topic, QoS::from_bits(qos));
        subscriptions.push(subscription);""", """        let (subscription, size) = decode_subscription(buffer).await?;
        remaining_length = take_length(remaining_length, size)?;
        subscriptions.push(subscription);"""), ('fn malformed(', """async fn decode_subscription(
    buffer: &mut MqttBytesReadStream,
) -> Result<(Subscription, u64), Error> {
    let topic = buffer.get_string().await?;
    let qos = buffer.get_u8().await?;
    if qos > 2 {
        return Err(malformed("Malformed QoS"));
    }

    let size = topic.len() as u64 + 3;
    Ok((Subscription::new(topic, QoS::from_bits(qos)), size))
}

fn malformed("""))
r('o-acks-helper', 'C01 C02', D, ("""    validate_remaining_length(remaining_length, 2)?;
    let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
    Ok(ControlPacket::PubAck""", """    let packet_id = decode_ack(buffer, first_byte, 0b01000000, remaining_length).await?;
    Ok(ControlPacket::PubAck"""), ('fn malformed(', """async fn decode_ack(
    buffer: &mut MqttBytesReadStream,
    first_byte: u8,
    expected: u8,
    remaining_length: u64,
) -> Result<u16, Error> {
    validate_remaining_length(remaining_length, 2)?;
    decode_packet_with_packet_id(buffer, first_byte, expected).await
}

fn malformed("""))
r('o-utf8-owned', 'C01', ST, ("""        let str = std::str::from_utf8(str_buf.as_ref()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!(
                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
                ),
            )
        })?;

        Ok(String::from(str))""", """        match std::str::from_utf8(str_buf.as_ref()) {
            Ok(text) => Ok(text.to_string()),
            Err(e) => Err(Error::new(
                ErrorKind::InvalidData,
                format!("Invalid UTF8 String: error at position {}", e.valid_up_to() + 1),
            )),
        }"""), last=True)
r('o-utf8-vec', 'C01', ST, ("""        let str = std::str::from_utf8(str_buf.as_ref()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!(
                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
                ),
            )
        })?;

        Ok(String::from(str))""", """        String::from_utf8(str_buf.to_vec())
            .map_err(|_| Error::new(ErrorKind::InvalidData, "Invalid UTF8 String"))"""), last=True)
r('o-wait-invert', 'C04', ST, ("""            // todo: Handle better?
            let connection_closed = read_bytes_num == 0; // end of file
            if connection_closed {
                let clean_shutdown = self.read_buffer.is_empty();
                return if clean_shutdown {
                    Err(tokio::io::Error::new(
                        ErrorKind::ConnectionReset,
                        "connection reset by peer",
                    ))
                } else {
                    // closed while sending
                    Err(tokio::io::Error::new(
                        ErrorKind::ConnectionReset,
                        "connection interrupted, reset by peer",
                    ))
                };
            }""", """            if read_bytes_num == 0 {
                return Err(self.closed());
            }"""), ("""    async fn wait_for_data(""", """    fn closed(&self) -> Error {
        let message = if self.read_buffer.is_empty() {
            "connection reset by peer"
        } else {
            "connection interrupted, reset by peer"
        };
        Error::new(ErrorKind::ConnectionReset, message)
    }

    async fn wait_for_data("""), last=True)
r('o-remaining-len', 'C04', ST, ("""        let mut remaining_length = size;

        while remaining_length > 0 {
            // todo: use clamp when stabilized
            let wait_for_bytes = {
                if remaining_length > self.read_buffer.capacity() {
                    // a fully consumed buffer may have no capacity left
                    self.read_buffer.capacity().max(1)
                } else {
                    remaining_length
                }
            };

            self.wait_for_data(wait_for_bytes).await?;
            bytes.put(self.read_buffer.split_to(wait_for_bytes));
            remaining_length -= wait_for_bytes;
        }
""", """        while bytes.len() < size {
            let missing = size - bytes.len();
            let chunk = missing.min(self.read_buffer.capacity().max(1));
            self.wait_for_data(chunk).await?;
            bytes.put(self.read_buffer.split_to(chunk));
        }
"""), last=True)
r('o-chunk-helper', 'C04', ST, ("""            let wait_for_bytes = {
                if remaining_length > self.read_buffer.capacity() {
                    // a fully consumed buffer may have no capacity left
                    self.read_buffer.capacity().max(1)
                } else {
                    remaining_length
                }
            };
""", """            let wait_for_bytes = chunk_size(remaining_length, self.read_buffer.capacity());
"""), ('impl MqttBytesReadStream {', """fn chunk_size(remaining: usize, capacity: usize) -> usize {
    if remaining > capacity {
        capacity.max(1)
    } else {
        remaining
    }
}

impl MqttBytesReadStream {"""), last=True)
r('o-put-while', 'C05 C06', ST, ("""        let mut remaining_size = bytes.len();

        while remaining_size > 0 {
            let bytes_to_write = {
                if remaining_size > self.write_buffer.capacity() {
                    self.write_buffer.capacity().max(1)
                } else {
                    remaining_size
                }
            };
            self.write_buffer_if_too_small(bytes_to_write).await?;

            self.write_buffer.put(bytes.split_to(bytes_to_write));

            remaining_size -= bytes_to_write;
        }
""", """        while !bytes.is_empty() {
            let capacity = self.write_buffer.capacity().max(1);
            let chunk = std::cmp::min(bytes.len(), capacity);
            self.write_buffer_if_too_small(chunk).await?;
            self.write_buffer.put(bytes.split_to(chunk));
        }
"""), last=True)
r('o-string-slice', 'C05', ST, ("""        self.put_bytes(BytesMut::from(string.as_bytes())).await?;

        Ok(())""", """        let bytes = BytesMut::from(string.as_bytes());
        self.put_bytes(bytes).await"""), last=True)
r('o-enc-length', 'C05', E, ("""        let mut encoded_byte: u8 = (remaining_length % 128) as u8;
        remaining_length /= 128;

        if remaining_length > 0 {
            encoded_byte |= 128;
        }
""", """        let digit = (remaining_length % 128) as u8;
        remaining_length /= 128;

        let encoded_byte = if remaining_length > 0 { digit | 128 } else { digit };
"""))
r('o-enc-plus', 'C05', E, ("""            encoded_byte |= 128;
""", """            encoded_byte += 128;
"""))
r('o-lost-helper', 'C19', L, ("""        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
""", """        Self::report(&client_event_tx, ClientEvent::ConnectionLost(client_id, server_event_tx)).await;
"""), ("""    async fn connection_write_loop(""", """    async fn report(client_event_tx: &Sender<ClientEvent>, event: ClientEvent) {
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
    }

    async fn connection_write_loop("""))
r('o-read-loop', 'C19', L, ("""        while let Ok(packet) = read_packet(&mut read_stream).await {
            trace!""", """        loop {
            let packet = match read_packet(&mut read_stream).await {
                Ok(packet) => packet,
                Err(_) => break,
            };
            trace!"""))
r('o-first-letelse', 'C19', L, ("""        if let Ok(packet) = read_packet(&mut read_stream).await {
            trace!("Read the first packet: {:?}", &packet);

            if let ControlPacket::Connect(mut c) = packet {""", """        let Ok(packet) = read_packet(&mut read_stream).await else {
            return;
        };
        {
            trace!("Read the first packet: {:?}", &packet);

            if let ControlPacket::Connect(mut c) = packet {"""), ("""                return;
            }
        } else {
            return;
        }""", """                return;
            }
        }"""))
r('o-write-early', 'C20', L, ("""            match event {
                ServerEvent::ControlPacket(packet) => {
                    trace!("Writing packet: {:?}", &packet);
                    if let Err(e) = write_packet(&mut write_stream, packet).await {
                        error!("Error while writing packet: {:?}", &e);
                    }
                }
                ServerEvent::Disconnect => {
                    break;
                }
            }""", """            let ServerEvent::ControlPacket(packet) = event else {
                break;
            };

            trace!("Writing packet: {:?}", &packet);
            if let Err(e) = write_packet(&mut write_stream, packet).await {
                error!("Error while writing packet: {:?}", &e);
            }"""))
r('o-users-fold', 'C18', A, ("""            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;
""", """            let Some((username, password)) = line.split_once(':') else {
                return Err(InvalidEntry);
            };
"""))
r('o-users-collect', 'C18', A, ("""        let mut passwords_by_username = HashMap::with_capacity(credentials.lines().count());

        for line in credentials.lines() {
            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;

            passwords_by_username.insert(username.to_owned(), password.to_owned());
        }
""", """        let passwords_by_username = credentials
            .lines()
            .map(|line| {
                line.split_once(':')
                    .map(|(u, p)| (u.to_owned(), p.to_owned()))
                    .ok_or(InvalidEntry)
            })
            .collect::<Result<HashMap<_, _>, _>>()?;
"""))
r('o-users-helper', 'C18', A, ("""        let credentials = std::fs::read_to_string(filename)?;

        let mut passwords_by_username = HashMap::with_capacity(credentials.lines().count());

        for line in credentials.lines() {
            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;

            passwords_by_username.insert(username.to_owned(), password.to_owned());
        }

        let manager""", """        let credentials = std::fs::read_to_string(filename)?;
        let passwords_by_username = Self::parse(&credentials)?;

        let manager"""), ("""    pub fn new(filename""", """    fn parse(text: &str) -> Result<HashMap<String, String>, FileIdentityManagerError> {
        let mut passwords_by_username = HashMap::new();

        for line in text.lines() {
            let (username, password) = line.split_once(':').ok_or(InvalidEntry)?;
            passwords_by_username.insert(username.to_string(), password.to_string());
        }

        Ok(passwords_by_username)
    }

    pub fn new(filename"""))
r('o-auth-iflet', 'C18', A, ("""        let password_hash = self
            .passwords_by_username
            .get(username)
            .ok_or(UserNotFound)?;

        let parsed_hash = PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?;

        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| InvalidPassword)""", """        let password_hash = match self.passwords_by_username.get(username) {
            Some(hash) => hash,
            None => return Err(UserNotFound),
        };
        let parsed_hash = PasswordHash::new(password_hash).map_err(EncryptionError)?;

        if Argon2::default().verify_password(password.as_bytes(), &parsed_hash).is_err() {
            return Err(InvalidPassword);
        }
        Ok(())"""))
r('o-keep-alive-match', 'C22', SE, ("""        if self.keep_alive_seconds == 0 {
            return false;
        }

        let leeway_seconds = (self.keep_alive_seconds as f32 * 1.5) as i64;
        let keep_alive_expires_at = self.last_activity + Duration::seconds(leeway_seconds);

        &keep_alive_expires_at <= now""", """        match self.keep_alive_seconds {
            0 => false,
            seconds => {
                let leeway = Duration::seconds(seconds as i64 * 3 / 2);
                *now >= self.last_activity + leeway
            }
        }"""))
r('o-keep-alive-helper', 'C22', SE, ("""        let leeway_seconds = (self.keep_alive_seconds as f32 * 1.5) as i64;
        let keep_alive_expires_at = self.last_activity + Duration::seconds(leeway_seconds);

        &keep_alive_expires_at <= now""", """        self.keep_alive_expires_at() <= *now"""), ("""    pub fn is_keep_alive_expired""", """    fn keep_alive_expires_at(&self) -> DateTime<Utc> {
        let leeway_seconds = (self.keep_alive_seconds as f32 * 1.5) as i64;
        self.last_activity + Duration::seconds(leeway_seconds)
    }

    pub fn is_keep_alive_expired"""))
r('o-keep-alive-sub', 'C22', SE, ("""        let keep_alive_expires_at = self.last_activity + Duration::seconds(leeway_seconds);

        &keep_alive_expires_at <= now""", """        let idle = *now - self.last_activity;
        idle >= Duration::seconds(leeway_seconds)"""))
r('o-settings-const', 'C25', SET, ('Environment::with_prefix("ratelmq").separator("__")', 'Environment::with_prefix(ENV_PREFIX).separator(ENV_SEPARATOR)'), ('impl Settings {', 'const ENV_PREFIX: &str = "ratelmq";\nconst ENV_SEPARATOR: &str = "__";\n\nimpl Settings {'))
r('o-settings-split', 'C25', SET, ("""        ListOrText::Text(text) => text.split(',').map(|s| s.trim().to_string()).collect(),
    })""", """        ListOrText::Text(text) => split_list(&text),
    })"""), ('impl Settings {', """fn split_list(text: &str) -> Vec<String> {
    text.split(',').map(str::trim).map(String::from).collect()
}

impl Settings {"""))
r('o-settings-loop', 'C25', SET, ("""        ListOrText::Text(text) => text.split(',').map(|s| s.trim().to_string()).collect(),
    })""", """        ListOrText::Text(text) => {
            let mut list = Vec::new();
            for item in text.split(',') {
                list.push(item.trim().to_owned());
            }
            list
        }
    })"""))
r('o-tool-early', 'C23', PW, ("""    } else if !delete {
        let separator""", """    } else if delete {
        None
    } else {
        let separator"""), ("""        Some(credentials + separator + build_entry(user_name, password).as_str())
    } else {
        None
    };""", """        Some(credentials + separator + build_entry(user_name, password).as_str())
    };"""))
r('o-tool-match', 'C23', PW, ("""    if let Some(new_file_content) = updated_credentials {
        std::fs::write(file_name, new_file_content).unwrap();
    }""", """    match updated_credentials {
        Some(new_file_content) => std::fs::write(file_name, new_file_content).unwrap(),
        None => {}
    }"""))
r('o-tool-fn', 'C23', PW, ("""        let text = match delete {
            true => "".to_string(),
            false => build_entry(user_name, password).replace("$", "$$"), // for regexp
        };
""", """        let text = replacement(user_name, password, delete);
"""), ('fn build_arguments', """fn replacement(user_name: &str, password: Option<&str>, delete: bool) -> String {
    if delete {
        String::new()
    } else {
        build_entry(user_name, password).replace("$", "$$") // for regexp
    }
}

fn build_arguments"""))
r('o-tool-builder', 'C23', PW, ("""    let regexp = RegexBuilder::new(regexp_format.as_str())
        .multi_line(true)
        .build()
        .unwrap();
""", """    let regexp = line_regexp(regexp_format.as_str());
"""), ('fn build_arguments', """fn line_regexp(pattern: &str) -> regex::Regex {
    RegexBuilder::new(pattern).multi_line(true).build().unwrap()
}

fn build_arguments"""))

def main():
    loader = importlib.machinery.SourceFileLoader('check', V + '/bin/check')
    spec = importlib.util.spec_from_loader('check', loader)
    c = importlib.util.module_from_spec(spec)
    loader.exec_module(c)
    c.log = lambda *a: None
    ext = None
    for name in (sys.argv[1:] or R):
        if name not in R:
            print('unknown', name); continue
        props, file, subs, last = R[name]
        shutil.rmtree(S, ignore_errors=True)
        os.makedirs(S + '/ratelmq-passwd')
        for d in ('src', 'ratelmq-passwd/src'):
            shutil.copytree('/repo/' + d, S + '/' + d)
        t = open(f'{S}/{file}').read()
        bad = False
        for a, b in subs:
            if a not in t:
                print(name, 'TEXT NOT FOUND:', a[:60]); bad = True; break
            if last:
                k = t.rindex(a); t = t[:k] + b + t[k + len(a):]
            else:
                t = t.replace(a, b, 1)
        if bad: continue
        open(f'{S}/{file}', 'w').write(t)
        c.REPO = S
        if ext is None:
            _, art, _ = c.build_replay(None)
            ext = c.externs(art, 'ratelmq')
            have = {x.split('=')[0] for x in ext}
            more = c.externs(art, 'replay')
            for k in range(0, len(more), 2):
                if more[k + 1].split('=')[0] not in have: ext += more[k:k + 2]
        for prop in props:
            p = c.verify('refac', c.PROPS[prop]['areas'], ext, 600)
            print(f"{name:18} {prop} {p.state:10} {p.why[:300]}", flush=True)
            for f in p.failures:
                print('      HARD', f['fn'], '|', f['message'], '|', f['text'][:100], f['props'])
    shutil.rmtree(S, ignore_errors=True)

if __name__ == '__main__':
    main()
