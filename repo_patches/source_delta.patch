From 6359092c0b19f6985c71b965125e974a0f010e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 01/88] fix: accept four-byte variable byte integers when
 decoding

---
 vaux-mqtt/src/codec/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 68c55fa..6795ca4 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -718,6 +718,12 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
         if next_byte & 0x80 == 0 {
             decode = false;
         } else {
+            // a variable byte integer has at most four bytes
+            if shift > 21 {
+                return Err(MqttCodecError::new(
+                    "malformed packet: variable byte integer",
+                ));
+            }
             if !src.has_remaining() {
                 return Err(MqttCodecError::new_with_kind(
                     "Insufficient data for variable byte integer",
@@ -726,11 +732,6 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
             }
             next_byte = src.get_u8();
         }
-        if shift > 21 {
-            return Err(MqttCodecError::new(
-                "malformed packet: variable byte integer",
-            ));
-        }
     }
     Ok((result, shift / 7))
 }
-- 
2.43.0


From 5971c18c8be38b0b6727e2d53bc914cd09b72978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 02/88] fix: reject values that do not fit a variable byte
 integer when encoding

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 6795ca4..a66010d 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -737,6 +737,11 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
 }
 
 pub fn encode_variable_byte_int(val: u32, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
+    if val > MAX_VARIABLE_BYTE_INT {
+        return Err(MqttCodecError::new(
+            "variable byte integer exceeds max value",
+        ));
+    }
     let mut encode = true;
     let mut input_val = val;
     while encode {
-- 
2.43.0


From b60411038e5125b51eaafb35ea79942e3652cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 03/88] fix: reject a PUBLISH with both QoS bits set instead of
 panicking

---
 vaux-mqtt/src/codec/fixed.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vaux-mqtt/src/codec/fixed.rs b/vaux-mqtt/src/codec/fixed.rs
index c967acc..bd927d0 100644
--- a/vaux-mqtt/src/codec/fixed.rs
+++ b/vaux-mqtt/src/codec/fixed.rs
@@ -132,6 +132,13 @@ impl Decode for FixedHeader {
             }
             _ => {}
         }
+        // 3.3.1.2 a PUBLISH packet must not have both QoS bits set to 1
+        if flags & QOS_MASK == QOS_MASK {
+            return Err(MqttCodecError::new_with_kind(
+                "unsupported QOS level",
+                ErrorKind::UnsupportedQosLevel,
+            ));
+        }
         self.flags = flags;
         Ok(1)
     }
-- 
2.43.0


From f063bb4654edf2f5eb41a31bb7cf8487d504510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 04/88] fix: report truncated packet fields as errors instead
 of panicking

---
 vaux-macro/src/decode.rs   | 31 +++++++++++++++++++++++++++++--
 vaux-mqtt/src/codec/mod.rs | 21 +++++++++++++++------
 vaux-mqtt/src/connect.rs   | 16 ++++++++--------
 vaux-mqtt/src/publish.rs   |  8 ++++----
 4 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 500599f..6b412b5 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -83,6 +83,12 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
             while property_bytes_read < property_length {
+                if !src.has_remaining() {
+                    return Err(codec::MqttCodecError::new_with_kind(
+                        "Insufficient data for property type",
+                        codec::ErrorKind::InsufficientData(1, 0),
+                    ));
+                }
                 let property_type = src.get_u8().try_into()?;
                 property_bytes_read += 1;
                 match property_type {
@@ -282,12 +288,17 @@ pub(crate) fn decode_field(field: &syn::Field) -> proc_macro2::TokenStream {
                     }
                     type_name => {
                         if is_primitive_type(type_name) {
-                            decode_for_primitive(
+                            let size_check = primitive_size_check(&inner_field_type);
+                            let decode = decode_for_primitive(
                                 field_name,
                                 &inner_field_type,
                                 optional_field,
                                 &property_type,
-                            )
+                            );
+                            quote! {
+                                #size_check
+                                #decode
+                            }
                         } else {
                             decode_for_type(
                                 field_name,
@@ -349,6 +360,22 @@ fn decode_for_string(
     }
 }
 
+/// Guard emitted before the decode logic of a primitive field: the buffer getters panic when the
+/// buffer is too short.
+fn primitive_size_check(field_type: &syn::Type) -> proc_macro2::TokenStream {
+    quote! {
+        if src.remaining() < std::mem::size_of::<#field_type>() {
+            return Err(codec::MqttCodecError::new_with_kind(
+                "Insufficient data",
+                codec::ErrorKind::InsufficientData(
+                    std::mem::size_of::<#field_type>(),
+                    src.remaining(),
+                ),
+            ));
+        }
+    }
+}
+
 fn decode_for_primitive(
     field_name: &syn::Ident,
     field_type: &syn::Type,
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index a66010d..689f21b 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -223,7 +223,7 @@ impl Encode for Reason {
 
 impl Decode for Reason {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        let val = src.get_u8();
+        let val = src.try_get_u8()?;
         *self = val.try_into()?;
         Ok(1)
     }
@@ -286,7 +286,7 @@ impl Encode for QoSLevel {
 
 impl Decode for QoSLevel {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        let val = src.get_u8();
+        let val = src.try_get_u8()?;
         *self = val.try_into()?;
         Ok(1)
     }
@@ -413,6 +413,15 @@ impl From<std::io::Error> for MqttCodecError {
     }
 }
 
+impl From<bytes::TryGetError> for MqttCodecError {
+    fn from(err: bytes::TryGetError) -> Self {
+        MqttCodecError::new_with_kind(
+            "Insufficient data",
+            ErrorKind::InsufficientData(err.requested, err.available),
+        )
+    }
+}
+
 impl std::error::Error for MqttCodecError {}
 
 impl MqttCodecError {
@@ -608,7 +617,7 @@ impl Decode for Vec<u8> {
 
 impl Decode for bool {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = match src.get_u8() {
+        *self = match src.try_get_u8()? {
             0 => Ok(false),
             1 => Ok(true),
             v => Err(MqttCodecError::new(&format!(
@@ -622,21 +631,21 @@ impl Decode for bool {
 
 impl Decode for u8 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u8();
+        *self = src.try_get_u8()?;
         Ok(1)
     }
 }
 
 impl Decode for u16 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u16();
+        *self = src.try_get_u16()?;
         Ok(2)
     }
 }
 
 impl Decode for u32 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u32();
+        *self = src.try_get_u32()?;
         Ok(4)
     }
 }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 6ac087d..bd5d3cf 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -195,11 +195,11 @@ impl codec::Decode for Connect {
 
         // header fields
         bytes_read += self.protocol_name.decode(src)?;
-        self.protocol_version = src.get_u8();
+        self.protocol_version = src.try_get_u8()?;
         bytes_read += 1;
-        self.connect_flags = src.get_u8();
+        self.connect_flags = src.try_get_u8()?;
         bytes_read += 1;
-        self.keep_alive = src.get_u16();
+        self.keep_alive = src.try_get_u16()?;
         bytes_read += 2;
 
         // properties
@@ -208,7 +208,7 @@ impl codec::Decode for Connect {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
-            let property_type: PropertyType = src.get_u8().try_into()?;
+            let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::SessionExpiryInterval => {
@@ -217,7 +217,7 @@ impl codec::Decode for Connect {
                     self.session_expiry_interval = Some(value);
                 }
                 PropertyType::RecvMax => {
-                    self.receive_maximum = Some(src.get_u16());
+                    self.receive_maximum = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::MaxPacketSize => {
@@ -226,15 +226,15 @@ impl codec::Decode for Connect {
                     self.max_packet_size = Some(value);
                 }
                 PropertyType::TopicAliasMax => {
-                    self.topic_alias_maximum = Some(src.get_u16());
+                    self.topic_alias_maximum = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
-                    self.request_response_info = Some(src.get_u8() != 0);
+                    self.request_response_info = Some(src.try_get_u8()? != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::ReqProblemInfo => {
-                    self.request_problem_info = Some(src.get_u8() != 0);
+                    self.request_problem_info = Some(src.try_get_u8()? != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::AuthMethod => {
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index bbd2b09..1eeca8c 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -35,7 +35,7 @@ impl codec::Encode for PayloadFormat {
 
 impl codec::Decode for PayloadFormat {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = PayloadFormat::try_from(src.get_u8())?;
+        *self = PayloadFormat::try_from(src.try_get_u8()?)?;
         Ok(1)
     }
 }
@@ -284,7 +284,7 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
-            self.packet_id = Some(src.get_u16());
+            self.packet_id = Some(src.try_get_u16()?);
             bytes_read += 2;
         }
 
@@ -293,7 +293,7 @@ impl codec::Decode for Publish {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
-            let property_type: PropertyType = src.get_u8().try_into()?;
+            let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::MessageExpiry => {
@@ -307,7 +307,7 @@ impl codec::Decode for Publish {
                     self.payload_format = Some(value);
                 }
                 PropertyType::TopicAlias => {
-                    self.topic_alias = Some(src.get_u16());
+                    self.topic_alias = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::ResponseTopic => {
-- 
2.43.0


From d511107127f09c6e9f869e7ce2558d0efcd74d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 05/88] fix: count the length prefixes of a user property once

---
 vaux-mqtt/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e697cd3..06ef371 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -181,7 +181,7 @@ impl codec::Decode for UserProperty {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
-        let bytes_read = 2 + key_len + 2 + len;
+        let bytes_read = key_len + len;
         self.0.entry(key_value).or_default().push(value);
         Ok(bytes_read)
     }
-- 
2.43.0


From 3f8ce76354003dac695724adcc1409590cc6275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 06/88] fix: account binary properties to the property section
 when decoding

---
 vaux-macro/src/decode.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 6b412b5..89fab0c 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -457,8 +457,13 @@ fn decode_for_vec(
     field_name: &syn::Ident,
     type_path: &syn::TypePath,
     optional_field: bool,
-    _property_type: &Option<syn::Path>,
+    property_type: &Option<syn::Path>,
 ) -> proc_macro2::TokenStream {
+    let read = if property_type.is_some() {
+        quote! { property_bytes_read }
+    } else {
+        quote! { bytes_read }
+    };
     let decode_stmt = match &type_path.path.segments.last().unwrap().arguments {
         syn::PathArguments::AngleBracketed(args) => match args.args.first().unwrap() {
             syn::GenericArgument::Type(syn::Type::Path(vec_inner_type_path)) => {
@@ -476,14 +481,14 @@ fn decode_for_vec(
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;  
+                                #read += var_bytes_read;  
                                 self.#field_name = Some(value);
                             }
                         } else {
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;
+                                #read += var_bytes_read;
                                 self.#field_name = value;
                             }
                         }
@@ -498,7 +503,7 @@ fn decode_for_vec(
                                 let mut value = Vec::new();
                                 while src.has_remaining() {
                                     let mut item = String::new();
-                                    bytes_read += item.decode(src)?;
+                                    #read += item.decode(src)?;
                                     value.push(item);
                                 }
                                 self.#field_name = Some(value);
@@ -508,7 +513,7 @@ fn decode_for_vec(
                                 let mut value = Vec::new();
                                 while src.has_remaining() {
                                     let mut item = String::new();
-                                    bytes_read += item.decode(src)?;
+                                    #read += item.decode(src)?;
                                     value.push(item);
                                 }
                                 self.#field_name = value;
@@ -520,7 +525,7 @@ fn decode_for_vec(
                         let mut value = Vec::new();
                         while src.has_remaining() {
                             let mut item = #vec_inner_type_path::default();
-                            bytes_read += item.decode(src)?;
+                            #read += item.decode(src)?;
                             value.push(item);
                         }
                         self.#field_name = value;
-- 
2.43.0


From ba34cc1374a3fb1c260ee8cab3106ce50e847134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 07/88] fix: treat a complete frame that does not match its
 content as malformed

---
 vaux-macro/src/decode.rs   |  5 ++++
 vaux-mqtt/src/codec/mod.rs | 50 ++++++++++++++++++++++++++------------
 vaux-mqtt/src/connect.rs   |  5 ++++
 vaux-mqtt/src/publish.rs   |  5 ++++
 4 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 89fab0c..9b09e18 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -101,6 +101,11 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                     }
                 }
             }
+            if property_bytes_read != property_length {
+                return Err(codec::MqttCodecError::new(
+                    "malformed packet: property length does not match the properties",
+                ));
+            }
             bytes_read += property_bytes_read;
         }
     } else {
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 689f21b..a7a3958 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -479,71 +479,91 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         }
         _ => {}
     }
+    // the frame is complete from here on: running out of bytes means that it is malformed
+    let (packet, body_len) = decode_body(fixed_header, src).map_err(|err| match err.kind {
+        ErrorKind::InsufficientData(_, _) => MqttCodecError::new(&err.reason),
+        _ => err,
+    })?;
+    if src.has_remaining() {
+        return Err(MqttCodecError::new(
+            "malformed packet: remaining length exceeds packet content",
+        ));
+    }
+    decode_len += body_len;
+    Ok(Some((packet, decode_len)))
+}
+
+/// Decode the variable header and payload of a packet from a buffer that holds exactly that.
+fn decode_body(
+    fixed_header: FixedHeader,
+    src: &mut BytesMut,
+) -> Result<(Packet, usize), MqttCodecError> {
+    let mut decode_len = 0;
     match fixed_header.packet_type {
-        PacketType::PingReq => Ok(Some((Packet::PingRequest(crate::PingReq::default()), decode_len))),
-        PacketType::PingResp => Ok(Some((
+        PacketType::PingReq => Ok((Packet::PingRequest(crate::PingReq::default()), decode_len)),
+        PacketType::PingResp => Ok((
             Packet::PingResponse(crate::PingResp::default()),
             decode_len,
-        ))),
+        )),
         PacketType::Connect => {
             let mut connect = Connect::new();
             decode_len += connect.decode(src)?;
-            Ok(Some((Packet::Connect(Box::new(connect)), decode_len)))
+            Ok((Packet::Connect(Box::new(connect)), decode_len))
         }
         PacketType::Publish => {
             let mut publish = Publish::new_from_header(fixed_header)?;
             decode_len += publish.decode(src)?;
-            Ok(Some((Packet::Publish(publish), decode_len)))
+            Ok((Packet::Publish(publish), decode_len))
         }
         PacketType::PubAck => {
             let mut puback = PubAck::default();
             decode_len += puback.decode(src)?;
-            Ok(Some((Packet::PubAck(puback), decode_len)))
+            Ok((Packet::PubAck(puback), decode_len))
         }
         PacketType::PubComp => {
             let mut pubcomp = PubComp::default();
             decode_len += pubcomp.decode(src)?;
-            Ok(Some((Packet::PubComp(pubcomp), decode_len)))
+            Ok((Packet::PubComp(pubcomp), decode_len))
         }
         PacketType::PubRec => {
             let mut pubrec = PubRec::default();
             decode_len += pubrec.decode(src)?;
-            Ok(Some((Packet::PubRec(pubrec), decode_len)))
+            Ok((Packet::PubRec(pubrec), decode_len))
         }
         PacketType::PubRel => {
             let mut pubrel = PubRel::default();
             decode_len += pubrel.decode(src)?;
-            Ok(Some((Packet::PubRel(pubrel), decode_len)))
+            Ok((Packet::PubRel(pubrel), decode_len))
         }
         PacketType::Disconnect => {
             let mut disconnect = Disconnect::default();
             decode_len += disconnect.decode(src)?;
-            Ok(Some((Packet::Disconnect(disconnect), decode_len)))
+            Ok((Packet::Disconnect(disconnect), decode_len))
         }
         PacketType::ConnAck => {
             let mut connack = ConnAck::default();
             decode_len += connack.decode(src)?;
-            Ok(Some((Packet::ConnAck(connack), decode_len)))
+            Ok((Packet::ConnAck(connack), decode_len))
         }
         PacketType::Subscribe => {
             let mut subscribe = Subscribe::default();
             decode_len += subscribe.decode(src)?;
-            Ok(Some((Packet::Subscribe(subscribe), decode_len)))
+            Ok((Packet::Subscribe(subscribe), decode_len))
         }
         PacketType::SubAck => {
             let mut suback = SubAck::default();
             decode_len += suback.decode(src)?;
-            Ok(Some((Packet::SubAck(suback), decode_len)))
+            Ok((Packet::SubAck(suback), decode_len))
         }
         PacketType::Unsubscribe => {
             let mut unsubscribe = Unsubscribe::default();
             decode_len += unsubscribe.decode(src)?;
-            Ok(Some((Packet::Unsubscribe(unsubscribe), decode_len)))
+            Ok((Packet::Unsubscribe(unsubscribe), decode_len))
         }
         PacketType::UnsubAck => {
             let mut unsuback = UnsubAck::default();
             decode_len += unsuback.decode(src)?;
-            Ok(Some((Packet::UnsubAck(unsuback), decode_len)))
+            Ok((Packet::UnsubAck(unsuback), decode_len))
         }
         _ => Err(MqttCodecError::new("unsupported packet type")),
     }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index bd5d3cf..1caab7f 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -262,6 +262,11 @@ impl codec::Decode for Connect {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(codec::MqttCodecError::new(
+                "malformed packet: property length does not match the properties",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         // payload: client_id (always present)
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 1eeca8c..a27ac0c 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -345,6 +345,11 @@ impl codec::Decode for Publish {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(codec::MqttCodecError::new(
+                "malformed packet: property length does not match the properties",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
-- 
2.43.0


From 11f12b8ff50fc3811cbecee18c7b68e5b27d5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 08/88] fix: accept acknowledgements and DISCONNECT that omit
 the property length

---
 vaux-macro/src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 9b09e18..5d4fed0 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -216,6 +216,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 #(#header_field_decoded)*
                 #abbreviated_check
                 #(#non_abbreviated_header_decoded)*
+                #abbreviated_check
                 #min_size_check
                 #decode_properties
                 #(#decode_field_payload)*
-- 
2.43.0


From e3a1bcf303e7b8e6ec695a615f0b193a448799df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 09/88] fix: keep the packet type of decoded publish
 acknowledgements

---
 vaux-mqtt/src/codec/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index a7a3958..501847b 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -516,22 +516,22 @@ fn decode_body(
             Ok((Packet::Publish(publish), decode_len))
         }
         PacketType::PubAck => {
-            let mut puback = PubAck::default();
+            let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             Ok((Packet::PubAck(puback), decode_len))
         }
         PacketType::PubComp => {
-            let mut pubcomp = PubComp::default();
+            let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             Ok((Packet::PubComp(pubcomp), decode_len))
         }
         PacketType::PubRec => {
-            let mut pubrec = PubRec::default();
+            let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             Ok((Packet::PubRec(pubrec), decode_len))
         }
         PacketType::PubRel => {
-            let mut pubrel = PubRel::default();
+            let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             Ok((Packet::PubRel(pubrel), decode_len))
         }
-- 
2.43.0


From 533a705b0e2182206f7b7e79fa28a23e0a3d681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 10/88] fix: encode CONNECT will and credential fields in the
 order and form MQTT defines

---
 vaux-macro/src/size.rs   |  4 +---
 vaux-mqtt/src/connect.rs | 42 +++++++++++++++++++++-------------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/vaux-macro/src/size.rs b/vaux-macro/src/size.rs
index 570f88b..4c0bf9b 100644
--- a/vaux-macro/src/size.rs
+++ b/vaux-macro/src/size.rs
@@ -266,9 +266,7 @@ fn size_for_vec(
     if optional {
         quote! {
             if let Some(#field_name) = &self.#field_name {
-                if !#field_name.is_empty() {
-                    #size_prefix #field_size;
-                }
+                #size_prefix #field_size;
             }
         }
     } else {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 1caab7f..f730cc9 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -49,14 +49,14 @@ pub struct Connect {
     pub client_id: String,
     #[codec(payload_type = "field")]
     pub(crate) will_properties: Option<WillHeader>,
-    #[codec(payload_type = "field", skip_if = "Vec::is_empty")]
-    pub(crate) will_payload: Vec<u8>,
     #[codec(payload_type = "field")]
     pub(crate) will_topic: Option<String>,
-    #[codec(skip_if = "String::is_empty", payload_type = "field")]
-    username: String,
-    #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
-    password: Vec<u8>,
+    #[codec(payload_type = "field")]
+    pub(crate) will_payload: Option<Vec<u8>>,
+    #[codec(payload_type = "field")]
+    username: Option<String>,
+    #[codec(payload_type = "field")]
+    password: Option<Vec<u8>>,
 }
 
 impl Default for Connect {
@@ -89,10 +89,10 @@ impl Connect {
             user_properties: property::UserProperty::new(),
             client_id: uuid::Uuid::new_v4().to_string(),
             will_properties: None,
-            will_payload: Vec::new(),
             will_topic: None,
-            username: String::new(),
-            password: Vec::new(),
+            will_payload: None,
+            username: None,
+            password: None,
         }
     }
 
@@ -140,7 +140,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_USERNAME) | 1_u8 << 7;
         }
-        self.username = username.unwrap_or_default();
+        self.username = username;
     }
 
     pub fn password(&self) -> bool {
@@ -153,7 +153,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_PASSWORD) | 1_u8 << 6;
         }
-        self.password = password.unwrap_or_default();
+        self.password = password;
     }
 
     pub fn set_session_expiry_interval(&mut self, interval: u32) {
@@ -168,7 +168,7 @@ impl Connect {
         if self.will() {
             Some(WillMessage {
                 topic: self.will_topic.clone().unwrap_or_default(),
-                payload: bytes::Bytes::from(self.will_payload.clone()),
+                payload: bytes::Bytes::from(self.will_payload.clone().unwrap_or_default()),
                 qos: self.will_qos().unwrap_or(QoSLevel::AtMostOnce),
                 retain: self.will_retain(),
                 header: self.will_properties.clone().unwrap_or_default(),
@@ -180,7 +180,7 @@ impl Connect {
 
     pub fn set_will_message(&mut self, will: WillMessage) {
         self.will_topic = Some(will.topic);
-        self.will_payload = will.payload.to_vec();
+        self.will_payload = Some(will.payload.to_vec());
         self.will_properties = Some(will.header);
         self.set_will(true);
         self.set_will_qos(will.qos);
@@ -278,19 +278,21 @@ impl codec::Decode for Connect {
             bytes_read += will_header.decode(src)?;
             self.will_properties = Some(will_header);
 
-            let mut value = Vec::new();
-            let var_bytes_read = value.decode(src)?;
-            bytes_read += var_bytes_read;
-            self.will_payload = value;
-
             let mut value = String::default();
             bytes_read += value.decode(src)?;
             self.will_topic = Some(value);
+
+            let mut value = Vec::new();
+            let var_bytes_read = value.decode(src)?;
+            bytes_read += var_bytes_read;
+            self.will_payload = Some(value);
         }
 
         // payload: username (only if USERNAME flag set)
         if self.username() {
-            bytes_read += self.username.decode(src)?;
+            let mut value = String::default();
+            bytes_read += value.decode(src)?;
+            self.username = Some(value);
         }
 
         // payload: password (only if PASSWORD flag set)
@@ -298,7 +300,7 @@ impl codec::Decode for Connect {
             let mut value = Vec::new();
             let var_bytes_read = value.decode(src)?;
             bytes_read += var_bytes_read;
-            self.password = value;
+            self.password = Some(value);
         }
 
         Ok(bytes_read)
-- 
2.43.0


From 7724e19e82e0934c568f2b7671cced3ba683d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:29 +0000
Subject: [PATCH 11/88] fix: keep packet identifier and DUP of a PUBLISH
 consistent with its QoS

---
 vaux-mqtt/src/codec/mod.rs | 9 ++++++++-
 vaux-mqtt/src/publish.rs   | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 501847b..0d5225a 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -343,7 +343,14 @@ impl Encode for Packet {
             Packet::PingResponse(pingresp) => pingresp.encode(dest),
             Packet::Connect(connect) => connect.encode(dest),
             Packet::ConnAck(connack) => connack.encode(dest),
-            Packet::Publish(publish) => publish.encode(dest),
+            Packet::Publish(publish) => {
+                if publish.qos() != QoSLevel::AtMostOnce && publish.packet_id().is_none() {
+                    return Err(MqttCodecError::new(
+                        "MQTTv5 3.3.2.2 packet identifier required for QoS 1 and 2",
+                    ));
+                }
+                publish.encode(dest)
+            }
             Packet::PubAck(puback) => puback.encode(dest),
             Packet::PubComp(pubcomp) => pubcomp.encode(dest),
             Packet::PubRec(pubrec) => pubrec.encode(dest),
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index a27ac0c..85e7caf 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -196,8 +196,14 @@ impl Publish {
         self.fixed_header.qos()
     }
 
+    /// Set the QoS level. A QoS level of `AtMostOnce` has neither a packet identifier
+    /// nor a duplicate flag, both are cleared. See MQTTv5 specification section 3.3.1.
     pub fn set_qos(&mut self, qos: QoSLevel) {
         self.fixed_header.set_qos(qos);
+        if qos == QoSLevel::AtMostOnce {
+            self.fixed_header.set_dup(false);
+            self.packet_id = None;
+        }
     }
 
     pub fn with_qos(mut self, qos: QoSLevel) -> Self {
-- 
2.43.0


From 49de94be2ce1e0766a776e6c188a9e4686af338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 12/88] fix: accept the packet identifier not found reason for
 PUBREL and PUBCOMP

---
 vaux-mqtt/src/pubresp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/pubresp.rs b/vaux-mqtt/src/pubresp.rs
index e165b81..41ebe4b 100644
--- a/vaux-mqtt/src/pubresp.rs
+++ b/vaux-mqtt/src/pubresp.rs
@@ -115,7 +115,7 @@ impl PubResp {
                     | Reason::PayloadFormatErr
             ),
             PacketType::PubComp | PacketType::PubRel => {
-                matches!(reason, Reason::Success | Reason::PacketIdInUse)
+                matches!(reason, Reason::Success | Reason::PacketIdInUse | Reason::PacketIdNotFound)
             }
             _ => false,
         }
-- 
2.43.0


From 67c153ac9a8b1327bdb06d36d1a8f5621d644335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 13/88] fix: reject a subscription identifier of zero

---
 vaux-mqtt/src/subscribe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index 4ab9c96..413f384 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -1,4 +1,4 @@
-use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT, MIN_VARIABLE_BYTE_INT};
+use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT};
 use crate::{codec, MqttCodecError, PropertyType, Reason};
 use crate::{property::UserProperty, MqttError, MqttVersion, QoSLevel};
 use vaux_macro::{packet, CodecSize, Decode, Encode};
@@ -182,7 +182,7 @@ impl Subscribe {
     }
 
     pub fn set_subscription_id(&mut self, id: u32) -> Result<(), MqttError> {
-        if !(MIN_VARIABLE_BYTE_INT..=MAX_VARIABLE_BYTE_INT).contains(&id) {
+        if !(1..=MAX_VARIABLE_BYTE_INT).contains(&id) {
             return Err(MqttError::new_from_spec(
                 MqttVersion::V5,
                 "3.8.3",
-- 
2.43.0


From cbc2d78e542154656b88e3db2b880f223f2b8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:08 +0000
Subject: [PATCH 14/88] fix: report the end of the stream inside a packet
 instead of reading forever

---
 vaux-async/src/stream/packet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a4a2924..b82096d 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -140,8 +140,12 @@ impl PacketStream {
                 .await
             {
                 Ok(len) => {
-                    if len == 0 && bytes_read == 0 {
-                        return Ok(None);
+                    if len == 0 {
+                        if bytes_read == 0 {
+                            return Ok(None);
+                        }
+                        // the peer closed the connection in the middle of a packet
+                        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
                     }
                     bytes_read += len;
                     self.read_offset = bytes_read;
-- 
2.43.0


From f89e77b12c38ce83e9a4cdb2d1a24221e553313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 15/88] fix: consume the packet returned by read_raw and return
 its bytes

---
 vaux-async/src/stream/packet.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index b82096d..82d77da 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -30,7 +30,6 @@ impl Display for Error {
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
-    initial_buffer_size: usize,
     max_buffer_size: usize,
     stream: AsyncMqttStream,
 }
@@ -44,7 +43,6 @@ impl PacketStream {
         Self {
             read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
             read_offset: 0,
-            initial_buffer_size: initial_buffer_size.unwrap_or(READ_BUFFER_SIZE),
             max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
             stream,
         }
@@ -98,24 +96,16 @@ impl PacketStream {
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            if with_bytes {
-                                // split the buffer into packet and remaining bytes
-                                let packet_bytes = bytes_mut.split_to(decode_len);
-                                // resize the buffer if less than requested initial size
-                                if self.read_buffer.len() < self.initial_buffer_size {
-                                    self.read_buffer.resize(self.initial_buffer_size, 0);
-                                }
-                                return Ok(Some((packet, Some(packet_bytes.freeze()))));
+                            let packet_bytes = with_bytes
+                                .then(|| Bytes::copy_from_slice(&self.read_buffer[..decode_len]));
+                            if decode_len < bytes_read {
+                                self.read_buffer.copy_within(decode_len..bytes_read, 0);
+                                // adjust offset to end of decoded bytes
+                                self.read_offset = bytes_read - decode_len;
                             } else {
-                                if decode_len < bytes_read {
-                                    self.read_buffer.copy_within(decode_len..bytes_read, 0);
-                                    // adjust offset to end of decoded bytes
-                                    self.read_offset = bytes_read - decode_len;
-                                } else {
-                                    self.read_offset = 0;
-                                }
-                                return Ok(Some((packet, None)));
+                                self.read_offset = 0;
                             }
+                            return Ok(Some((packet, packet_bytes)));
                         } else {
                             return Ok(None);
                         }
-- 
2.43.0


From 100759d9bdbf477013661dc610bd5a62fbda3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 16/88] fix: do not shrink the read buffer below the data it
 holds

---
 vaux-async/src/stream/packet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 82d77da..0c0669c 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -144,7 +144,9 @@ impl PacketStream {
                         // TODO add a capability to shrink the buffer if it is too large or
                         // a client needs to free up memory
                         let new_size = usize::min(self.read_buffer.len() * 2, self.max_buffer_size);
-                        self.read_buffer.resize(new_size, 0);
+                        if new_size > self.read_buffer.len() {
+                            self.read_buffer.resize(new_size, 0);
+                        }
                     }
                 }
                 Err(e) => match e.kind() {
-- 
2.43.0


From 7a2a814d758098c305f9f496d08f36f8e1dc1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 17/88] fix: answer an unsubscribe without subscription with
 reason 0x11

---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e5d7343..68dac02 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -418,7 +418,7 @@ impl Broker {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
             } else {
-                Reason::NoSubscribers
+                Reason::NoSubscriptionExisted
             };
             unsuback.reason_code.push(reason);
         }
-- 
2.43.0


From 3b609ad7e6dc75ac674ee65bd890748a09c21db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 18/88] fix: do not match topics starting with $ against
 leading wildcards

---
 vaux-broker/src/topic.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index f9d4fac..9fff970 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -112,6 +112,9 @@ impl TopicTree {
         results: &mut Vec<Subscriber>,
     ) {
         let node = &self.nodes[node_idx as usize];
+        // a filter starting with a wildcard does not match topics starting with '$'
+        // See MQTT 5.0 specification section 4.7.2
+        let skip_wildcards = depth == 0 && segments[0].starts_with('$');
 
         // '#' at this level matches everything at and below
         results.extend(node.wildcard_subscribers.iter().cloned());
@@ -133,6 +136,10 @@ impl TopicTree {
             self.collect_matches(child_idx, segments, depth + 1, results);
         }
 
+        if skip_wildcards {
+            return;
+        }
+
         // '+' wildcard matches any single level
         if let Some(&plus_idx) = node.children.get("+") {
             self.collect_matches(plus_idx, segments, depth + 1, results);
-- 
2.43.0


From fc57acb2710e16fd298b7d0665cef1b1931834c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 19/88] fix: refuse a PUBLISH whose topic name contains a
 wildcard

---
 vaux-broker/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 68dac02..7074f5f 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -336,6 +336,13 @@ impl Broker {
                 Ok(())
             }
             Packet::Publish(publish) => {
+                if publish.topic_name.contains(['+', '#']) {
+                    let disconnect = Disconnect::new(Reason::InvalidTopicName);
+                    stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                    return Err(MqttCodecError::new(
+                        "PUBLISH topic name contains a wildcard",
+                    ).into());
+                }
                 let session_id = {
                     let session = session.read().await;
                     session.id().to_string()
-- 
2.43.0


From 16a4ba08d31213bc726ccedfe140007c1dcd209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:07 +0000
Subject: [PATCH 20/88] fix: do not forward the duplicate flag and topic alias
 of the sender

---
 vaux-broker/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 7074f5f..bb6e44f 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -678,6 +678,9 @@ impl Broker {
             if let Some(target_session) = session_pool.get_active(&sub.session_id) {
                 let mut out = publish.clone();
                 out.set_qos(qos);
+                // the duplicate flag and the topic alias belong to the sender's connection
+                out.set_dup(false).ok();
+                out.topic_alias = None;
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
                     let packet_id = target.next_packet_id();
-- 
2.43.0


From bc71085a4e1ce62ce5240edb3350160dc22f5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 21/88] fix: publish the user properties of a will message

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index bb6e44f..79ef13d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -656,6 +656,7 @@ impl Broker {
         publish.content_type = will.header.content_type.clone();
         publish.response_topic = will.header.response_topic.clone();
         publish.correlation_data = will.header.correlation_data.clone();
+        publish.user_properties = will.header.user_properties.clone();
         if let Some(format) = will.header.payload_format {
             publish.set_payload_format(format);
         }
-- 
2.43.0


From 135e385006b96da8925d206aab8227c06301fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 22/88] fix: discard the subscriptions of the previous session
 on a clean start

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 79ef13d..6cedf12 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -546,6 +546,7 @@ impl Broker {
                 if connected {
                     let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
                 }
+                state.topic_tree.write().await.unsubscribe_all(&session_id);
             }
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
-- 
2.43.0


From 5d8bacf61bdef5dc3c5140a6521ec552629fad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:12 +0000
Subject: [PATCH 23/88] fix: use the keep alive of the new connection when a
 session is resumed

---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 6cedf12..62926c8 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -561,6 +561,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                 }
                 session
@@ -571,6 +572,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                     session.set_last_active();
                 }
-- 
2.43.0


From d640d1e4c4ae0e12e32e3d9e07b055bcc1c89e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 24/88] fix: do not reuse the packet identifier of an
 unacknowledged message

---
 vaux-broker/src/session.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 91e8f18..1209f76 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -274,11 +274,19 @@ impl Session {
         }
     }
 
+    /// Returns a packet identifier that is not zero and, unless all of them are, not in
+    /// use by a message that is still to be acknowledged.
     pub fn next_packet_id(&mut self) -> u16 {
-        let id = self.next_packet_id;
-        self.next_packet_id = self.next_packet_id.wrapping_add(1);
-        if self.next_packet_id == 0 {
-            self.next_packet_id = 1;
+        let mut id = self.next_packet_id;
+        for _ in 0..u16::MAX {
+            id = self.next_packet_id;
+            self.next_packet_id = self.next_packet_id.wrapping_add(1);
+            if self.next_packet_id == 0 {
+                self.next_packet_id = 1;
+            }
+            if !self.pending_ack.contains_key(&id) {
+                break;
+            }
         }
         id
     }
-- 
2.43.0


From 1ca17caedf35161ecb7349a56bc83d5bbc1781c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 25/88] fix: redeliver unacknowledged messages in order and
 keep them pending

---
 vaux-broker/src/lib.rs     |  6 +-----
 vaux-broker/src/session.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 62926c8..043eb82 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -261,15 +261,11 @@ impl Broker {
                                         let mut session = session.write().await;
                                         keep_alive = session.keep_alive();
                                         session_control = session.take_control_receiver();
-                                        session.drain_pending()
+                                        session.pending()
                                     };
                                     for (packet_id, mut publish) in pending {
                                         publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
-                                        {
-                                            let mut s = session.write().await;
-                                            s.track_qos_publish(packet_id, publish.clone());
-                                        }
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
                                     client_session = Some(Arc::clone(&session));
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 1209f76..a878f70 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -303,8 +303,16 @@ impl Session {
         self.pending_ack.len()
     }
 
-    pub fn drain_pending(&mut self) -> Vec<(u16, Publish)> {
-        self.pending_ack.drain().collect()
+    /// Returns the messages that are still to be acknowledged, oldest first. The messages
+    /// keep their packet identifiers and remain pending until they are acknowledged.
+    pub fn pending(&self) -> Vec<(u16, Publish)> {
+        let mut pending: Vec<(u16, Publish)> = self
+            .pending_ack
+            .iter()
+            .map(|(id, publish)| (*id, publish.clone()))
+            .collect();
+        pending.sort_by_key(|(id, _)| id.wrapping_sub(self.next_packet_id));
+        pending
     }
 
     pub fn id(&self) -> &str {
-- 
2.43.0


From 7b3ad104ac8fd7588e9cbde75264277b83826911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 26/88] fix: close the connection when the keep alive expires
 or the session is disconnected

---
 vaux-broker/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 043eb82..84a8eb2 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -230,10 +230,9 @@ impl Broker {
                                         }
                                     }
                                     stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
-                                } else {
-                                    stream.shutdown().await?;
-                                    return Ok(());
                                 }
+                                stream.shutdown().await?;
+                                return Ok(());
                             }
                             SessionControl::Deliver(publish) => {
                                 stream.write(&mut Packet::Publish(*publish)).await?;
@@ -247,10 +246,10 @@ impl Broker {
                         tracing::info!(session_id = %session_id, "keep-alive expired");
                         Broker::initiate_will(session, &state).await;
                         state.session_pool.write().await.deactivate(&session_id).await;
-                    } else {
-                        stream.shutdown().await?;
-                        return Ok(());
+                        stream.write(&mut Packet::Disconnect(Disconnect::new(Reason::KeepAliveTimeout))).await?;
                     }
+                    stream.shutdown().await?;
+                    return Ok(());
                 }
                 packet_result = stream.read() => {
                     match packet_result {
-- 
2.43.0


From 38af8afc3792c3cdf441e511f6d0741a25e7896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 27/88] fix: do not spin while a connection has no session to
 receive messages for

---
 vaux-broker/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 84a8eb2..d77551d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -14,7 +14,7 @@ use tokio::{
     net::TcpListener,
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
-    task::{yield_now, JoinHandle},
+    task::JoinHandle,
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -430,14 +430,13 @@ impl Broker {
     async fn handle_control(
         control_channel: &mut Option<Receiver<SessionControl>>,
     ) -> Option<SessionControl> {
-        loop {
-            if let Some(rx) = control_channel {
-                if let Some(control) = rx.recv().await {
-                    return Some(control);
-                }
+        if let Some(rx) = control_channel {
+            if let Some(control) = rx.recv().await {
+                return Some(control);
             }
-            yield_now().await;
         }
+        // not connected, or another connection has taken the session over
+        std::future::pending().await
     }
 
     async fn handle_pre_connect(
-- 
2.43.0


From 4c5d592f80d23044b5556de79fa616ee81cf4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 28/88] fix: close the connection after DISCONNECT and after a
 protocol error

---
 vaux-broker/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index d77551d..c77a435 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -273,7 +273,12 @@ impl Broker {
                                 }
                                 connected = true;
                             } else if let Some(session) = &client_session {
+                                let disconnect = matches!(packet, Packet::Disconnect(_));
                                 Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
+                                if disconnect {
+                                    stream.shutdown().await?;
+                                    return Ok(());
+                                }
                             }
                         }
                         Ok(None) => {
@@ -384,6 +389,11 @@ impl Broker {
                     .await;
                 Ok(())
             }
+            Packet::Connect(_) => {
+                let disconnect = Disconnect::new(Reason::ProtocolErr);
+                stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                Err(MqttCodecError::new("second CONNECT on a connection").into())
+            }
             _ => Ok(()),
         }
     }
@@ -465,7 +475,7 @@ impl Broker {
                 let header = Disconnect::new(Reason::ProtocolErr);
                 let mut packet = Packet::Disconnect(header);
                 stream.write(&mut packet).await?;
-                Ok(None)
+                Err(MqttCodecError::new("first packet is not CONNECT").into())
             }
         }
     }
-- 
2.43.0


From 0a862d9b059e2fbab596e27b9e819ef5bd6ad933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:31 +0000
Subject: [PATCH 29/88] fix: measure the keep alive from the last packet
 received

---
 vaux-broker/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index c77a435..e37bb15 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -209,6 +209,7 @@ impl Broker {
         let mut client_session: Option<Arc<RwLock<Session>>> = None;
         let mut session_control: Option<Receiver<SessionControl>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
+        let mut keep_alive_start = tokio::time::Instant::now();
         loop {
             select! {
                 ctrl = Broker::handle_control(&mut session_control) => {
@@ -240,7 +241,7 @@ impl Broker {
                         }
                     }
                 }
-                _ = Broker::keep_alive_timer(keep_alive) => {
+                _ = Broker::keep_alive_timer(keep_alive_start, keep_alive) => {
                     if let Some(session) = &client_session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
@@ -252,6 +253,7 @@ impl Broker {
                     return Ok(());
                 }
                 packet_result = stream.read() => {
+                    keep_alive_start = tokio::time::Instant::now();
                     match packet_result {
                         Ok(Some(packet)) => {
                             if !connected {
@@ -606,8 +608,13 @@ impl Broker {
         Ok(Some(Arc::clone(&session)))
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    /// Completes when the keep alive time has passed since the last packet was received.
+    /// A keep alive of zero turns the timer off.
+    async fn keep_alive_timer(start: tokio::time::Instant, keep_alive: Duration) {
+        if keep_alive.is_zero() {
+            std::future::pending::<()>().await;
+        }
+        tokio::time::sleep_until(start + keep_alive).await;
     }
 
     async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-- 
2.43.0


From 0adb91977c26f1f2ea4282de4f9017206f6a63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 30/88] fix: disconnect slow subscribers and taken over
 connections without waiting for them

---
 vaux-broker/src/lib.rs     | 19 ++++++---------
 vaux-broker/src/session.rs | 48 ++++++++++++++++++++++++++++++++++----
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e37bb15..3e158e7 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -5,7 +5,7 @@ pub(crate) mod topic;
 pub use config::Config;
 use config::{BROKER_KEEP_ALIVE_FACTOR, DEFAULT_KEEP_ALIVE};
 use session::Session;
-use session::SessionControl;
+use session::{ControlReceiver, SessionControl};
 use session::SessionPool;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
@@ -207,7 +207,7 @@ impl Broker {
     ) -> Result<(), BrokerError> {
         let mut connected = false;
         let mut client_session: Option<Arc<RwLock<Session>>> = None;
-        let mut session_control: Option<Receiver<SessionControl>> = None;
+        let mut session_control: Option<ControlReceiver> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         let mut keep_alive_start = tokio::time::Instant::now();
         loop {
@@ -440,7 +440,7 @@ impl Broker {
     }
 
     async fn handle_control(
-        control_channel: &mut Option<Receiver<SessionControl>>,
+        control_channel: &mut Option<ControlReceiver>,
     ) -> Option<SessionControl> {
         if let Some(rx) = control_channel {
             if let Some(control) = rx.recv().await {
@@ -618,13 +618,8 @@ impl Broker {
     }
 
     async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-        session
-            .read()
-            .await
-            .disconnect(Reason::SessionTakeOver)
-            .await;
-        // TODO wait for disconnect to complete from session state
-        tokio::time::sleep(Duration::from_millis(500)).await;
+        // the previous connection sends the disconnect packet on its own, see `ControlReceiver`
+        session.read().await.disconnect(Reason::SessionTakeOver);
         Ok(())
     }
 
@@ -707,7 +702,7 @@ impl Broker {
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        target.disconnect(Reason::QuotaExceeded);
                     }
                 } else {
                     let target = target_session.read().await;
@@ -717,7 +712,7 @@ impl Broker {
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        target.disconnect(Reason::QuotaExceeded);
                     }
                 }
             }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index a878f70..08f9033 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -5,7 +5,7 @@ use std::{
 };
 use tokio::sync::{
     RwLock,
-    mpsc::{self, Receiver, Sender},
+    mpsc::{self, Receiver, Sender, UnboundedReceiver, UnboundedSender},
 };
 use tokio_util::sync::CancellationToken;
 use vaux_mqtt::{Publish, Reason, WillMessage};
@@ -191,7 +191,28 @@ pub struct Session {
     pending_will: Option<CancellationToken>,
     next_packet_id: u16,
     pending_ack: HashMap<u16, Publish>,
+    connection: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
+    disconnect: (UnboundedSender<Reason>, Option<UnboundedReceiver<Reason>>),
+}
+
+/// The receiving end of the messages for the connection that owns a session.
+#[derive(Debug)]
+pub(crate) struct ControlReceiver {
+    control: Receiver<SessionControl>,
+    disconnect: UnboundedReceiver<Reason>,
+}
+
+impl ControlReceiver {
+    /// Receives the next message. A request to disconnect precedes the messages to deliver.
+    pub async fn recv(&mut self) -> Option<SessionControl> {
+        tokio::select! {
+            biased;
+            Some(reason) = self.disconnect.recv() => Some(SessionControl::Disconnect(reason)),
+            Some(control) = self.control.recv() => Some(control),
+            else => None,
+        }
+    }
 }
 
 impl Session {
@@ -203,6 +224,7 @@ impl Session {
         channel_size: usize,
     ) -> Self {
         let (sender, receiver) = mpsc::channel(channel_size);
+        let (disconnect_sender, disconnect_receiver) = mpsc::unbounded_channel();
         Session {
             id,
             last_active: Instant::now(),
@@ -213,25 +235,41 @@ impl Session {
             pending_will: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
+            connection: 0,
             control: (sender, Some(receiver)),
+            disconnect: (disconnect_sender, Some(disconnect_receiver)),
         }
     }
 
+    /// Hands the session over to a new connection. Messages that are still on their way to
+    /// the previous connection are not delivered to the new one.
     pub fn reset_control(&mut self, channel_size: usize) {
         let (sender, receiver) = mpsc::channel(channel_size);
         self.control = (sender, Some(receiver));
+        let (sender, receiver) = mpsc::unbounded_channel();
+        self.disconnect = (sender, Some(receiver));
+        self.connection += 1;
+    }
+
+    /// The number of the connection that owns the session. It changes whenever another
+    /// connection takes the session over.
+    pub fn connection(&self) -> u64 {
+        self.connection
     }
 
     pub fn control_sender(&self) -> Sender<SessionControl> {
         self.control.0.clone()
     }
 
-    pub fn take_control_receiver(&mut self) -> Option<Receiver<SessionControl>> {
-        self.control.1.take()
+    pub fn take_control_receiver(&mut self) -> Option<ControlReceiver> {
+        let control = self.control.1.take()?;
+        let disconnect = self.disconnect.1.take()?;
+        Some(ControlReceiver { control, disconnect })
     }
 
-    pub async fn disconnect(&self, reason: Reason) {
-        let _ = self.send_control(SessionControl::Disconnect(reason)).await;
+    /// Asks the connection that owns the session to disconnect. Never waits.
+    pub fn disconnect(&self, reason: Reason) {
+        let _ = self.disconnect.0.send(reason);
     }
 
     pub async fn send_control(
-- 
2.43.0


From abc536e18bbf0daa7501400ec39f6209a2d72c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:12 +0000
Subject: [PATCH 31/88] fix: release the session however its connection ends,
 unless it was taken over

---
 vaux-broker/src/lib.rs | 175 ++++++++++++++++++++++-------------------
 1 file changed, 93 insertions(+), 82 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 3e158e7..349cc83 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -111,6 +111,23 @@ impl Default for Broker {
     }
 }
 
+/// The session of a connected client together with the connection that owns it.
+struct ClientSession {
+    session_id: String,
+    session: Arc<RwLock<Session>>,
+    connection: u64,
+    keep_alive: Duration,
+}
+
+impl ClientSession {
+    async fn clear_will(&self) {
+        let mut session = self.session.write().await;
+        if session.connection() == self.connection {
+            session.clear_will();
+        }
+    }
+}
+
 impl Broker {
     pub fn new_with_config(config: config::Config) -> Self {
         let (sender, receiver) = tokio::sync::mpsc::channel(config.session_channel_size);
@@ -205,8 +222,20 @@ impl Broker {
         stream: &mut PacketStream,
         state: BrokerState,
     ) -> Result<(), BrokerError> {
-        let mut connected = false;
-        let mut client_session: Option<Arc<RwLock<Session>>> = None;
+        let mut client_session: Option<ClientSession> = None;
+        let result = Broker::handle_connection(stream, &mut client_session, &state).await;
+        // however the connection ended, its session must not remain active
+        if let Some(client) = &client_session {
+            Broker::connection_closed(client, &state).await;
+        }
+        result
+    }
+
+    async fn handle_connection(
+        stream: &mut PacketStream,
+        client_session: &mut Option<ClientSession>,
+        state: &BrokerState,
+    ) -> Result<(), BrokerError> {
         let mut session_control: Option<ControlReceiver> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         let mut keep_alive_start = tokio::time::Instant::now();
@@ -216,20 +245,8 @@ impl Broker {
                     if let Some(control) = ctrl {
                         match control {
                             SessionControl::Disconnect(reason) => {
-                                if let Some(session) = &client_session {
-                                    let session_id = {
-                                        let session = session.read().await;
-                                        (*session).id().to_string()
-                                    };
-                                    match reason {
-                                        Reason::SessionTakeOver => {
-                                            // the session will already be deactivated and taken over
-                                            // by another client, just send the disconnect packet
-                                        }
-                                        _ => {
-                                            state.session_pool.write().await.deactivate(&session_id).await;
-                                        }
-                                    }
+                                if let Some(client) = client_session {
+                                    Broker::connection_closed(client, state).await;
                                     stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
                                 }
                                 stream.shutdown().await?;
@@ -242,11 +259,9 @@ impl Broker {
                     }
                 }
                 _ = Broker::keep_alive_timer(keep_alive_start, keep_alive) => {
-                    if let Some(session) = &client_session {
-                        let session_id = session.read().await.id().to_string();
-                        tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::initiate_will(session, &state).await;
-                        state.session_pool.write().await.deactivate(&session_id).await;
+                    if let Some(client) = client_session {
+                        tracing::info!(session_id = %client.session_id, "keep-alive expired");
+                        Broker::connection_closed(client, state).await;
                         stream.write(&mut Packet::Disconnect(Disconnect::new(Reason::KeepAliveTimeout))).await?;
                     }
                     stream.shutdown().await?;
@@ -256,48 +271,41 @@ impl Broker {
                     keep_alive_start = tokio::time::Instant::now();
                     match packet_result {
                         Ok(Some(packet)) => {
-                            if !connected {
-                                if let Some(session) = Broker::handle_pre_connect(packet, stream, &state).await? {
-                                    let pending = {
-                                        let mut session = session.write().await;
-                                        keep_alive = session.keep_alive();
-                                        session_control = session.take_control_receiver();
-                                        session.pending()
-                                    };
+                            if let Some(client) = client_session {
+                                if let Packet::Disconnect(packet) = &packet {
+                                    if let Reason::Success = packet.reason {
+                                        client.clear_will().await;
+                                    }
+                                    Broker::connection_closed(client, state).await;
+                                    stream.shutdown().await?;
+                                    return Ok(());
+                                }
+                                Broker::handle_packet(packet, stream, Arc::clone(&client.session), state).await?;
+                            } else {
+                                if let Some((client, control, ack)) = Broker::handle_pre_connect(packet, stream, state).await? {
+                                    keep_alive = client.keep_alive;
+                                    session_control = control;
+                                    let session = Arc::clone(&client.session);
+                                    *client_session = Some(client);
+                                    stream.write(&mut Packet::ConnAck(ack)).await?;
+                                    let pending = session.read().await.pending();
                                     for (packet_id, mut publish) in pending {
                                         publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
-                                    client_session = Some(Arc::clone(&session));
-                                } else {
-                                    continue;
-                                }
-                                connected = true;
-                            } else if let Some(session) = &client_session {
-                                let disconnect = matches!(packet, Packet::Disconnect(_));
-                                Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
-                                if disconnect {
-                                    stream.shutdown().await?;
-                                    return Ok(());
                                 }
                             }
                         }
                         Ok(None) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
-                                tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
+                            if let Some(client) = client_session {
+                                tracing::info!(session_id = %client.session_id, "connection closed");
                             }
                             return Ok(());
                         }
                         Err(e) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
-                                tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
+                            if let Some(client) = client_session {
+                                tracing::warn!(session_id = %client.session_id, error = %e, "connection error");
                             }
                             return Err(e.into());
                         }
@@ -372,25 +380,6 @@ impl Broker {
                 session.acknowledge(puback.packet_id);
                 Ok(())
             }
-            Packet::Disconnect(packet) => {
-                if let Reason::Success = packet.reason {
-                    let mut session = session.write().await;
-                    session.clear_will();
-                } else {
-                    Broker::initiate_will(&session, state).await;
-                }
-                let session_id = {
-                    let session = session.read().await;
-                    (*session).id().to_string()
-                };
-                state
-                    .session_pool
-                    .write()
-                    .await
-                    .deactivate(&session_id)
-                    .await;
-                Ok(())
-            }
             Packet::Connect(_) => {
                 let disconnect = Disconnect::new(Reason::ProtocolErr);
                 stream.write(&mut Packet::Disconnect(disconnect)).await?;
@@ -455,7 +444,7 @@ impl Broker {
         packet: Packet,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+    ) -> Result<Option<(ClientSession, Option<ControlReceiver>, ConnAck)>, BrokerError> {
         match packet {
             Packet::Connect(packet) => {
                 if !state.accepting_connections() {
@@ -486,7 +475,7 @@ impl Broker {
         connect: Connect,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+    ) -> Result<Option<(ClientSession, Option<ControlReceiver>, ConnAck)>, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
         let (default_keep_alive_secs, max_keep_alive_secs) = {
@@ -596,16 +585,22 @@ impl Broker {
                 new_session
             }
         };
-        drop(session_pool);
-        {
+        let (connection, control) = {
             let mut session = session.write().await;
             if let Some(expiry) = session_expiry {
                 session.set_session_expiry(expiry);
             }
-        }
+            (session.connection(), session.take_control_receiver())
+        };
+        drop(session_pool);
         tracing::info!(session_id = %session_id, "client connected");
-        stream.write(&mut Packet::ConnAck(ack)).await?;
-        Ok(Some(Arc::clone(&session)))
+        let client = ClientSession {
+            session_id,
+            session,
+            connection,
+            keep_alive,
+        };
+        Ok(Some((client, control, ack)))
     }
 
     /// Completes when the keep alive time has passed since the last packet was received.
@@ -623,16 +618,33 @@ impl Broker {
         Ok(())
     }
 
-    async fn initiate_will(session: &Arc<RwLock<Session>>, state: &BrokerState) {
-        let will = {
-            let mut session = session.write().await;
-            session.take_will()
+    /// Publishes the will message and deactivates the session of a connection that has ended,
+    /// unless another connection has taken the session over.
+    async fn connection_closed(client: &ClientSession, state: &BrokerState) {
+        Broker::initiate_will(client, state).await;
+        let mut session_pool = state.session_pool.write().await;
+        let owner = match session_pool.get_active(&client.session_id) {
+            Some(active) => {
+                Arc::ptr_eq(&active, &client.session)
+                    && active.read().await.connection() == client.connection
+            }
+            None => false,
         };
+        if owner {
+            session_pool.deactivate(&client.session_id).await;
+        }
+    }
 
-        if let Some(will) = will {
+    async fn initiate_will(client: &ClientSession, state: &BrokerState) {
+        let mut session = client.session.write().await;
+        if session.connection() != client.connection {
+            return;
+        }
+        if let Some(will) = session.take_will() {
             tracing::debug!(topic = %will.topic, "publishing will message");
             let delay_secs = will.header.will_delay.unwrap_or(0);
             if delay_secs == 0 {
+                drop(session);
                 Broker::publish_will(&will, state).await;
             } else {
                 let token = tokio_util::sync::CancellationToken::new();
@@ -646,7 +658,6 @@ impl Broker {
                         _ = child_token.cancelled() => {}
                     }
                 });
-                let mut session = session.write().await;
                 session.set_pending_will(token);
             }
         }
-- 
2.43.0


From 7af98feea33b1648484d4bfbf25146fcd0580ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 32/88] fix: do not resume a session that has expired

---
 vaux-broker/src/lib.rs     |  7 +++----
 vaux-broker/src/session.rs | 12 +++++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 349cc83..bd80d74 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -535,7 +535,8 @@ impl Broker {
             return Ok(None);
         }
 
-        let session: Arc<RwLock<Session>> = if connect.clean_start() {
+        let expired = session_pool.inactive_expired(&session_id).await;
+        let session: Arc<RwLock<Session>> = if connect.clean_start() || expired {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
                 let connected = { existing_session.read().await.connected() };
                 if connected {
@@ -587,9 +588,7 @@ impl Broker {
         };
         let (connection, control) = {
             let mut session = session.write().await;
-            if let Some(expiry) = session_expiry {
-                session.set_session_expiry(expiry);
-            }
+            session.session_expiry = session_expiry;
             (session.connection(), session.take_control_receiver())
         };
         drop(session_pool);
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 08f9033..431cee4 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -149,6 +149,15 @@ impl SessionPool {
         }
     }
 
+    /// Returns true if the inactive session pool contains the session and the session has
+    /// expired since it was deactivated.
+    pub async fn inactive_expired(&self, session_id: &str) -> bool {
+        match self.inactive.get(session_id) {
+            Some(session) => session.read().await.expired(),
+            None => false,
+        }
+    }
+
     /// Deactivates a session if the active session pool contains the session.
     /// The session is removed from the active pool and added to the inactive pool.
     /// The active session count is decremented and the inactive session count is
@@ -162,6 +171,7 @@ impl SessionPool {
             {
                 let mut session = session_guard.write().await;
                 session.set_connected(false);
+                session.set_last_active();
                 session_id = session.id().to_string();
             }
             self.inactive_sessions += 1;
@@ -385,7 +395,7 @@ impl Session {
 
     pub fn expired(&self) -> bool {
         if let Some(session_expiry) = self.session_expiry {
-            self.last_active.elapsed() > session_expiry
+            self.last_active.elapsed() >= session_expiry
         } else {
             true
         }
-- 
2.43.0


From 3a359e6c6342eedd307789b981fe2b198eec178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 33/88] fix: refuse malformed topic filters

---
 vaux-broker/src/lib.rs   |  4 ++++
 vaux-broker/src/topic.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index bd80d74..010e6ef 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -397,6 +397,10 @@ impl Broker {
         let mut suback = SubAck::new_with_packet_id(subscribe.packet_id).unwrap_or_default();
         let mut tree = state.topic_tree.write().await;
         for filter in &subscribe.filter {
+            if !topic::valid_filter(&filter.filter) {
+                suback.reason_codes.push(Reason::InvalidTopicFilter);
+                continue;
+            }
             let granted_qos = filter.qos();
             tree.subscribe(&filter.filter, session_id, granted_qos, filter.no_local());
             let reason = match granted_qos {
diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index 9fff970..a5f1952 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -24,6 +24,20 @@ pub struct TopicTree {
     nodes: Vec<TopicNode>,
 }
 
+/// Returns true if the topic filter is well-formed: it is not empty, wildcards occupy an
+/// entire level and a multi-level wildcard is the last level. See MQTT 5.0 specification
+/// section 4.7.1.
+pub fn valid_filter(filter: &str) -> bool {
+    let mut levels = filter.split('/').peekable();
+    while let Some(level) = levels.next() {
+        let last = levels.peek().is_none();
+        if level.contains(['+', '#']) && level != "+" && !(level == "#" && last) {
+            return false;
+        }
+    }
+    !filter.is_empty()
+}
+
 impl Default for TopicTree {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From f8c67dcd474fb006daba344e953142e7fda6a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 34/88] fix: honour retain as published and the subscription
 identifier of a subscription

---
 vaux-broker/src/lib.rs   | 15 +++++++++++++--
 vaux-broker/src/topic.rs | 30 +++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 010e6ef..9f7f080 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -16,7 +16,7 @@ use tokio::{
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
     task::JoinHandle,
 };
-use topic::TopicTree;
+use topic::{Subscriber, TopicTree};
 use uuid::Uuid;
 use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
 use vaux_mqtt::subscribe::SubAck;
@@ -402,7 +402,14 @@ impl Broker {
                 continue;
             }
             let granted_qos = filter.qos();
-            tree.subscribe(&filter.filter, session_id, granted_qos, filter.no_local());
+            let subscriber = Subscriber {
+                session_id: session_id.into(),
+                qos: granted_qos,
+                no_local: filter.no_local(),
+                retain_as_published: filter.retain_as_published(),
+                subscription_id: subscribe.subscription_id,
+            };
+            tree.add_subscriber(&filter.filter, subscriber);
             let reason = match granted_qos {
                 vaux_mqtt::QoSLevel::AtMostOnce => Reason::Success,
                 vaux_mqtt::QoSLevel::AtLeastOnce => Reason::GrantedQoS1,
@@ -705,6 +712,10 @@ impl Broker {
                 // the duplicate flag and the topic alias belong to the sender's connection
                 out.set_dup(false).ok();
                 out.topic_alias = None;
+                if !sub.retain_as_published {
+                    out.set_retain(false);
+                }
+                out.subscription_identifiers = sub.subscription_id;
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
                     let packet_id = target.next_packet_id();
diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index a5f1952..65e8883 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -8,6 +8,8 @@ pub struct Subscriber {
     pub session_id: Box<str>,
     pub qos: QoSLevel,
     pub no_local: bool,
+    pub retain_as_published: bool,
+    pub subscription_id: Option<u32>,
 }
 
 #[derive(Debug, Default)]
@@ -61,15 +63,23 @@ impl TopicTree {
         qos: QoSLevel,
         no_local: bool,
     ) {
+        self.add_subscriber(
+            filter,
+            Subscriber {
+                session_id: session_id.into(),
+                qos,
+                no_local,
+                retain_as_published: false,
+                subscription_id: None,
+            },
+        );
+    }
+
+    /// Adds a subscription, replacing the one the session has for the same filter.
+    pub fn add_subscriber(&mut self, filter: &str, subscriber: Subscriber) {
         let segments: Vec<&str> = filter.split('/').collect();
         let node_idx = self.ensure_path(&segments);
 
-        let subscriber = Subscriber {
-            session_id: session_id.into(),
-            qos,
-            no_local,
-        };
-
         let last_segment = *segments.last().unwrap();
         let list = if last_segment == "#" {
             &mut self.nodes[node_idx as usize].wildcard_subscribers
@@ -77,9 +87,11 @@ impl TopicTree {
             &mut self.nodes[node_idx as usize].subscribers
         };
 
-        if let Some(existing) = list.iter_mut().find(|s| *s.session_id == *session_id) {
-            existing.qos = qos;
-            existing.no_local = no_local;
+        if let Some(existing) = list
+            .iter_mut()
+            .find(|s| s.session_id == subscriber.session_id)
+        {
+            *existing = subscriber;
         } else {
             list.push(subscriber);
         }
-- 
2.43.0


From 26d9858a0666f0f71589c059dc360bace610e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:23 +0000
Subject: [PATCH 35/88] fix: tell the client when its session does not outlive
 the connection

A maximum session expiry of zero was dropped from the CONNACK.
---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 9f7f080..b178537 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -514,7 +514,7 @@ impl Broker {
                     max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
                 }
                 if requested_expiry > max_expiry {
-                    ack.set_session_expiry(max_expiry);
+                    ack.session_expiry_interval = Some(max_expiry);
                     Some(Duration::from_secs(max_expiry as u64))
                 } else {
                     Some(Duration::from_secs(requested_expiry as u64))
-- 
2.43.0


From 1ec1453db9d4e375f314a249c88ff4bddac2c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 36/88] fix: refuse a CONNECT for another protocol or with
 invalid flags

---
 vaux-mqtt/src/connect.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index f730cc9..e62b24e 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -11,6 +11,7 @@ pub(crate) const CONNECT_FLAG_PASSWORD: u8 = 0b_0100_0000;
 pub(crate) const CONNECT_FLAG_WILL_RETAIN: u8 = 0b_0010_0000;
 pub(crate) const CONNECT_FLAG_WILL_QOS: u8 = 0b_0001_1000;
 pub(crate) const CONNECT_FLAG_WILL: u8 = 0b_0000_0100;
+const CONNECT_FLAG_RESERVED: u8 = 0b_0000_0001;
 pub(crate) const CONNECT_FLAG_CLEAN_START: u8 = 0b_0000_0010;
 
 const MQTT_PROTOCOL_NAME: &str = "MQTT";
@@ -164,6 +165,27 @@ impl Connect {
         }
     }
 
+    /// Checks the fields of a received packet that have mandatory values.
+    fn check_protocol(&self) -> Result<(), MqttCodecError> {
+        if self.protocol_name != MQTT_PROTOCOL_NAME || self.protocol_version != MQTT_PROTOCOL_VERSION {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.1.2 unsupported protocol name or version",
+            ));
+        }
+        if self.connect_flags & CONNECT_FLAG_RESERVED != 0 {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.1.2.3 the reserved connect flag must be 0",
+            ));
+        }
+        let qos = self.will_qos()?;
+        if !self.will() && (qos != QoSLevel::AtMostOnce || self.will_retain()) {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.1.2.6 will QoS and will retain must be 0 without a will",
+            ));
+        }
+        Ok(())
+    }
+
     pub fn will_message(&self) -> Option<WillMessage> {
         if self.will() {
             Some(WillMessage {
@@ -199,6 +221,7 @@ impl codec::Decode for Connect {
         bytes_read += 1;
         self.connect_flags = src.try_get_u8()?;
         bytes_read += 1;
+        self.check_protocol()?;
         self.keep_alive = src.try_get_u16()?;
         bytes_read += 2;
 
-- 
2.43.0


From 080f3bc549e2243d7a1f993e3d750a6452b79690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:00 +0000
Subject: [PATCH 37/88] fix: measure the keep alive of the client from the last
 packet sent

---
 vaux-client/src/client.rs  |  6 ++++--
 vaux-client/src/session.rs | 16 ++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index efaf3c2..4491fcf 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -351,7 +351,8 @@ impl MqttClient {
             {
                 *_session_expiry.write().await = session_expiry;
             }
-            let keep_alive_enabled = session.keep_alive_enabled();
+            // a keep alive of zero turns the keep alive mechanism off
+            let keep_alive_enabled = session.keep_alive_enabled() && !keep_alive.is_zero();
             // Holds a packet that has been read off the wire (and already acked,
             // for auto-acked QoS 1/2) but could not be handed to the consumer
             // because its channel was full. While this is set, reads from the
@@ -362,8 +363,9 @@ impl MqttClient {
             // eventually drops the connection for missed keep-alives).
             let mut pending_forward: Option<Packet> = None;
             loop {
+                let keep_alive_remaining = keep_alive.saturating_sub(session.idle());
                 select! {
-                    _ = MqttClient::keep_alive_timer(keep_alive), if keep_alive_enabled => {
+                    _ = MqttClient::keep_alive_timer(keep_alive_remaining), if keep_alive_enabled => {
                         match session.handle_keep_alive().await {
                             Ok(_) => {
                                 // do nothing
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 98ebad4..15c974d 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -704,17 +704,21 @@ impl ClientSession {
 
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
         let ping = Packet::PingRequest(Default::default());
-        self.send_packet(ping).await?;
-        // packet sent, update last active time
-        self.last_active = std::time::Instant::now();
-        // }
-        Ok(())
+        self.send_packet(ping).await
+    }
+
+    /// The time since the last packet was sent to the broker.
+    pub(crate) fn idle(&self) -> Duration {
+        self.last_active.elapsed()
     }
 
     async fn send_packet(&mut self, mut packet: Packet) -> Result<(), MqttError> {
         self.packet_stream
             .write(&mut packet)
             .await
-            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))
+            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))?;
+        // packet sent, update last active time
+        self.last_active = std::time::Instant::now();
+        Ok(())
     }
 }
-- 
2.43.0


From 33ef38417c61f19c9816af083b8cd130c8c0b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 38/88] fix: do not truncate long keep alive and session expiry
 intervals

---
 vaux-client/src/session.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 15c974d..34be5cb 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -13,6 +13,7 @@ use vaux_mqtt::{
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
 const DEFAULT_CLIENT_KEEP_ALIVE: Duration = Duration::from_secs(60);
+const MAX_KEEP_ALIVE: Duration = Duration::from_secs(u16::MAX as u64);
 const DEFAULT_SESSION_EXPIRY: Duration = Duration::from_secs(600);
 
 #[allow(clippy::enum_variant_names)]
@@ -194,7 +195,10 @@ impl ClientSession {
             ));
         }
         let mut connect = Connect::default();
-        connect.keep_alive = self.state.keep_alive.read().await.as_secs() as u16;
+        // the largest interval that can be requested is also the one to observe
+        let keep_alive = self.keep_alive().await.min(MAX_KEEP_ALIVE);
+        *self.state.keep_alive.write().await = keep_alive;
+        connect.keep_alive = keep_alive.as_secs() as u16;
         connect.set_clean_start(clean_start);
         {
             let set_id = self.state.client_id.lock().await;
@@ -202,8 +206,8 @@ impl ClientSession {
                 connect.client_id = set_id.as_ref().unwrap().clone();
             }
         }
-        connect
-            .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+        let session_expiry = self.session_expiry().await.as_secs();
+        connect.set_session_expiry_interval(session_expiry.min(u64::from(u32::MAX)) as u32);
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
-- 
2.43.0


From 9be7abd6877996e6439fa6d584ee2c75fc7c2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 39/88] fix: never use packet identifier zero for a PUBLISH

---
 vaux-client/src/session.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 34be5cb..730cb38 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -299,6 +299,12 @@ impl ClientSession {
                     }
                     // verify client set packet ID is not already in use
                     if let Some(packet_id) = p.packet_id() {
+                        if packet_id == 0 {
+                            return Err(MqttError::new(
+                                "packet ID must not be zero",
+                                ErrorKind::Protocol(Reason::MalformedPacket),
+                            ));
+                        }
                         if self.state.pending_qos_send.contains_key(&packet_id) {
                             return Err(MqttError::new(
                                 "packet ID already in use",
@@ -306,14 +312,15 @@ impl ClientSession {
                             ));
                         }
                     } else if self.state.auto_packet_id {
-                        // if auto packet ID is enabled, generate a packet ID
+                        // if auto packet ID is enabled, generate a packet ID, zero is not valid
                         self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         // verify the packet ID is not already in use
                         // TODO improve in-use packet ID managment
-                        while self
-                            .state
-                            .pending_qos_send
-                            .contains_key(&self.state.last_packet_id)
+                        while self.state.last_packet_id == 0
+                            || self
+                                .state
+                                .pending_qos_send
+                                .contains_key(&self.state.last_packet_id)
                         {
                             self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         }
-- 
2.43.0


From 87d615b31eaf72ca03c329f2910d162211f26ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 40/88] fix: adopt the assigned client identifier when none is
 set

---
 vaux-client/src/session.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 730cb38..9f5036b 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -565,8 +565,13 @@ impl ClientSession {
     }
 
     async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let set_id = self.state.client_id.lock().await;
-        let client_id_set = set_id.is_some();
+        let client_id_set = self
+            .state
+            .client_id
+            .lock()
+            .await
+            .as_ref()
+            .is_some_and(|id| !id.is_empty());
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
-- 
2.43.0


From 742870f058a75d0ba9d0399de0b43c690a06191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 41/88] fix: announce the receive maximum and maximum packet
 size of the client

---
 vaux-client/src/session.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 9f5036b..fab5d46 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -208,6 +208,12 @@ impl ClientSession {
         }
         let session_expiry = self.session_expiry().await.as_secs();
         connect.set_session_expiry_interval(session_expiry.min(u64::from(u32::MAX)) as u32);
+        // announce the limits this client enforces
+        if self.state.qos_recv_remaining < u16::MAX as usize {
+            connect.receive_maximum = Some(self.state.qos_recv_remaining as u16);
+        }
+        connect.max_packet_size =
+            Some(u32::try_from(self.state.max_packet_size).unwrap_or(u32::MAX));
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
-- 
2.43.0


From 23bee37861fd8ab4dad6bfb58da8a2382f06ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 42/88] fix: enforce the maximum connect wait while the broker
 is silent

---
 vaux-client/src/session.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index fab5d46..a97474c 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -231,7 +231,11 @@ impl ClientSession {
             Ok(_) => {
                 let start = std::time::Instant::now();
                 while start.elapsed() < max_connect_wait {
-                    match self.read_next().await {
+                    let remaining = max_connect_wait.saturating_sub(start.elapsed());
+                    let Ok(next) = tokio::time::timeout(remaining, self.read_next()).await else {
+                        break;
+                    };
+                    match next {
                         Ok(Some(packet)) => match packet {
                             Packet::ConnAck(connack) => {
                                 return self.handle_connack(connack).await;
-- 
2.43.0


From 5714634d8d3356d586e867b46331f5019084e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:51 +0000
Subject: [PATCH 43/88] fix: refuse a QoS 2 PUBLISH beyond the receive maximum
 and count a repeated one once

---
 vaux-client/src/session.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index a97474c..090ec82 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -632,7 +632,7 @@ impl ClientSession {
             vaux_mqtt::QoSLevel::AtMostOnce => Ok(()),
 
             vaux_mqtt::QoSLevel::AtLeastOnce => {
-                if self.state.qos_recv_remaining == 0 {
+                if !self.can_receive(publish.packet_id().unwrap()) {
                     // protocol error, no more QoS packets allowed
                     return Err(MqttError::new(
                         "no more QoS packets allowed",
@@ -640,10 +640,14 @@ impl ClientSession {
                     ));
                 }
                 // insert into pending receive QoS
-                self.state.pending_qos_recv.insert(
+                let known = self.state.pending_qos_recv.insert(
                     publish.packet_id().unwrap(),
                     QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
                 );
+                if known.is_none() {
+                    // remaining - 1 until the ack is sent
+                    self.state.qos_recv_remaining -= 1;
+                }
                 if self.state.auto_ack {
                     let puback = if let Some(packet_id) = publish.packet_id() {
                         PubResp::new_puback_with_packet_id(packet_id)
@@ -655,7 +659,6 @@ impl ClientSession {
                             ErrorKind::Protocol(Reason::MalformedPacket),
                         ));
                     };
-                    self.state.qos_recv_remaining -= 1;
                     match self.send_packet(Packet::PubAck(puback)).await {
                         Ok(_) => {
                             self.state
@@ -674,18 +677,26 @@ impl ClientSession {
                         }
                     }
                 } else {
-                    // not auto ack, remaining - 1 until client app sends response
-                    self.state.qos_recv_remaining -= 1;
+                    // not auto ack, the client app sends the response
                     Ok(())
                 }
             }
             vaux_mqtt::QoSLevel::ExactlyOnce => {
-                self.state.pending_qos_recv.insert(
+                if !self.can_receive(publish.packet_id().unwrap()) {
+                    // protocol error, no more QoS packets allowed
+                    return Err(MqttError::new(
+                        "no more QoS packets allowed",
+                        ErrorKind::Protocol(Reason::ProtocolErr),
+                    ));
+                }
+                let known = self.state.pending_qos_recv.insert(
                     publish.packet_id().unwrap(),
                     QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
                 );
-                // decrement the remaining QoS packets until ack  sent
-                self.state.qos_recv_remaining -= 1;
+                if known.is_none() {
+                    // decrement the remaining QoS packets until ack  sent
+                    self.state.qos_recv_remaining -= 1;
+                }
                 if self.state.auto_ack {
                     let pubrec = if let Some(packet_id) = publish.packet_id() {
                         PubResp::new_pubrec_with_packet_id(packet_id)
@@ -728,6 +739,12 @@ impl ClientSession {
         }
     }
 
+    /// Whether the broker may send a PUBLISH with this packet ID: it continues a flow that
+    /// is already counted, or there is room for another one.
+    fn can_receive(&self, packet_id: u16) -> bool {
+        self.state.qos_recv_remaining > 0 || self.state.pending_qos_recv.contains_key(&packet_id)
+    }
+
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
         let ping = Packet::PingRequest(Default::default());
         self.send_packet(ping).await
-- 
2.43.0


From 52edc0b01db11c6d9894154e1e37036ddbb08761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:54 +0000
Subject: [PATCH 44/88] fix: do not deliver a repeated QoS 2 message twice

---
 vaux-client/src/session.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 090ec82..be972a0 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -395,6 +395,10 @@ impl ClientSession {
                 ));
             }
             Packet::Publish(publish) => {
+                if self.repeats_qos2(publish) {
+                    // already passed on to the client app, only the PUBREC was lost
+                    packet_to_consumer = false;
+                }
                 self.handle_recv_publish(publish.clone()).await?;
             }
             Packet::PubAck(puback) => {
@@ -739,6 +743,18 @@ impl ClientSession {
         }
     }
 
+    /// Whether a PUBLISH repeats a QoS 2 message that was received and not yet released.
+    fn repeats_qos2(&self, publish: &Publish) -> bool {
+        self.state.auto_ack
+            && publish.qos() == QoSLevel::ExactlyOnce
+            && publish.packet_id().is_some_and(|id| {
+                self.state
+                    .pending_qos_recv
+                    .get(&id)
+                    .is_some_and(|p| p.next == QoSPacket::PubRel)
+            })
+    }
+
     /// Whether the broker may send a PUBLISH with this packet ID: it continues a flow that
     /// is already counted, or there is room for another one.
     fn can_receive(&self, packet_id: u16) -> bool {
-- 
2.43.0


From 9308b29b98c74ce24e97f5377fba6bbe60c3acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:56 +0000
Subject: [PATCH 45/88] fix: answer a PUBREL for an unknown packet identifier

---
 vaux-client/src/session.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index be972a0..e697e16 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -533,13 +533,13 @@ impl ClientSession {
                             ));
                         }
                     }
-                } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
+                } else if self.state.auto_ack {
+                    // the PUBCOMP of an earlier connection was lost
+                    let mut pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                    pubcomp
+                        .set_reason(Reason::PacketIdNotFound)
+                        .map_err(|e| MqttError::new(&format!("{e}"), ErrorKind::Codec))?;
+                    self.send_packet(Packet::PubComp(pubcomp)).await?;
                 }
             }
             Packet::PubComp(pubcomp) => {
-- 
2.43.0


From 92f7f943117ec9c68859b02cfbddd054c72a5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:58 +0000
Subject: [PATCH 46/88] fix: do not release a QoS 2 PUBLISH that the broker
 refused

---
 vaux-client/src/session.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index e697e16..77d681d 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -428,6 +428,10 @@ impl ClientSession {
                 let packet_id = pubrec.packet_id;
                 if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
                     match p.next {
+                        QoSPacket::PubRec if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) => {
+                            // refused by the broker, the flow ends here
+                            self.state.qos_send_remaining += 1;
+                        }
                         QoSPacket::PubRec => {
                             if self.state.auto_ack {
                                 // insert PUBREL into pending qos
-- 
2.43.0


From f9730f1ed8733c0744b3fab6b63c67958bcff31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:16 +0000
Subject: [PATCH 47/88] fix: follow the QoS flows when the client app
 acknowledges the packets

---
 vaux-client/src/session.rs | 47 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 77d681d..a61b5cc 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -366,6 +366,10 @@ impl ClientSession {
                 }
                 self.send_packet(Packet::Publish(p)).await
             }
+            Packet::PubAck(_) | Packet::PubRec(_) | Packet::PubRel(_) | Packet::PubComp(_) => {
+                self.track_response(&packet);
+                self.send_packet(packet).await
+            }
             Packet::Disconnect(d) => {
                 self.send_packet(Packet::Disconnect(d)).await?;
                 // TODO handle shutdown error?
@@ -432,6 +436,12 @@ impl ClientSession {
                             // refused by the broker, the flow ends here
                             self.state.qos_send_remaining += 1;
                         }
+                        QoSPacket::PubRec if !self.state.auto_ack => {
+                            // the client app sends the PUBREL
+                            if let Some(next) = p.next() {
+                                self.state.pending_qos_send.insert(packet_id, next);
+                            }
+                        }
                         QoSPacket::PubRec => {
                             if self.state.auto_ack {
                                 // insert PUBREL into pending qos
@@ -507,6 +517,16 @@ impl ClientSession {
                 let packet_id = pubrel.packet_id;
                 if let Some(p) = self.state.pending_qos_recv.remove(&packet_id) {
                     match p.next {
+                        QoSPacket::PubRel | QoSPacket::PubComp if !self.state.auto_ack => {
+                            // the client app sends the PUBCOMP
+                            self.state.pending_qos_recv.insert(
+                                packet_id,
+                                QoSPacketState {
+                                    next: QoSPacket::PubComp,
+                                    ..p
+                                },
+                            );
+                        }
                         QoSPacket::PubRel => {
                             if self.state.auto_ack {
                                 let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
@@ -747,6 +767,33 @@ impl ClientSession {
         }
     }
 
+    /// Follows the QoS flows when the client app sends the acknowledgements itself.
+    fn track_response(&mut self, packet: &Packet) {
+        match packet {
+            Packet::PubRec(p) if p.reason().is_none_or(|r| (r as u8) < 0x80) => {
+                if let Some(state) = self.state.pending_qos_recv.get_mut(&p.packet_id)
+                    && state.next == QoSPacket::PubRec
+                {
+                    state.packet = None;
+                    state.next = QoSPacket::PubRel;
+                }
+            }
+            Packet::PubAck(p) | Packet::PubRec(p) | Packet::PubComp(p) => {
+                if self.state.pending_qos_recv.remove(&p.packet_id).is_some() {
+                    self.state.qos_recv_remaining += 1;
+                }
+            }
+            Packet::PubRel(p) => {
+                if let Some(state) = self.state.pending_qos_send.get_mut(&p.packet_id)
+                    && state.next == QoSPacket::PubRel
+                {
+                    state.next = QoSPacket::PubComp;
+                }
+            }
+            _ => {}
+        }
+    }
+
     /// Whether a PUBLISH repeats a QoS 2 message that was received and not yet released.
     fn repeats_qos2(&self, publish: &Publish) -> bool {
         self.state.auto_ack
-- 
2.43.0


From bd27a85ecd5850a8331652f717ca2a222e07e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:38 +0000
Subject: [PATCH 48/88] fix: start each connection of the client with the full
 receive quota

---
 vaux-client/src/builder.rs |  2 +-
 vaux-client/src/session.rs | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 1ec76e6..e3944d1 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -85,7 +85,7 @@ impl ClientBuilder {
     }
 
     pub fn with_receive_max(mut self, receive_max: u16) -> Self {
-        self.state.qos_recv_remaining = receive_max as usize;
+        self.state.receive_max = receive_max as usize;
         self
     }
 
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index a61b5cc..3ade015 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -76,6 +76,7 @@ pub struct SessionState {
 
     pub(crate) qos_send_remaining: usize,
     pending_qos_send: HashMap<u16, QoSPacketState>,
+    pub(crate) receive_max: usize,
     pub(crate) qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
 
@@ -105,6 +106,7 @@ impl SessionState {
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             qos_send_remaining: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
+            receive_max: u16::MAX as usize,
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
 
@@ -209,8 +211,8 @@ impl ClientSession {
         let session_expiry = self.session_expiry().await.as_secs();
         connect.set_session_expiry_interval(session_expiry.min(u64::from(u32::MAX)) as u32);
         // announce the limits this client enforces
-        if self.state.qos_recv_remaining < u16::MAX as usize {
-            connect.receive_maximum = Some(self.state.qos_recv_remaining as u16);
+        if self.state.receive_max < u16::MAX as usize {
+            connect.receive_maximum = Some(self.state.receive_max as u16);
         }
         connect.max_packet_size =
             Some(u32::try_from(self.state.max_packet_size).unwrap_or(u32::MAX));
@@ -534,7 +536,7 @@ impl ClientSession {
                                     Ok(_) => {
                                         // remove from pending qos
                                         self.state.pending_qos_recv.remove(&packet_id);
-                                        self.state.qos_recv_remaining += 1;
+                                        self.received_qos();
                                     }
                                     Err(_) => {
                                         // re-insert into pending qos without change
@@ -648,6 +650,12 @@ impl ClientSession {
             let mut session_expiry = self.state.session_expiry.write().await;
             *session_expiry = Duration::from_secs(u64::from(server_session_expiry));
         }
+        // only the QoS 2 messages that were answered outlive the connection, and only with
+        // the session of the server
+        self.state.qos_recv_remaining = self.state.receive_max;
+        self.state.pending_qos_recv.retain(|_, p| {
+            connack.session_present() && matches!(p.next, QoSPacket::PubRel | QoSPacket::PubComp)
+        });
         // set the server assigned receive maximum
         if let Some(receive_max) = connack.receive_maximum {
             self.state.qos_send_remaining = receive_max as usize;
@@ -692,7 +700,7 @@ impl ClientSession {
                             self.state
                                 .pending_qos_recv
                                 .remove(&publish.packet_id().unwrap());
-                            self.state.qos_recv_remaining += 1;
+                            self.received_qos();
                             Ok(())
                         }
                         Err(_) => {
@@ -780,7 +788,7 @@ impl ClientSession {
             }
             Packet::PubAck(p) | Packet::PubRec(p) | Packet::PubComp(p) => {
                 if self.state.pending_qos_recv.remove(&p.packet_id).is_some() {
-                    self.state.qos_recv_remaining += 1;
+                    self.received_qos();
                 }
             }
             Packet::PubRel(p) => {
@@ -794,6 +802,13 @@ impl ClientSession {
         }
     }
 
+    /// Restores the receive quota at the end of a flow. A flow of an earlier connection
+    /// does not count against the quota of this one.
+    fn received_qos(&mut self) {
+        self.state.qos_recv_remaining =
+            (self.state.qos_recv_remaining + 1).min(self.state.receive_max);
+    }
+
     /// Whether a PUBLISH repeats a QoS 2 message that was received and not yet released.
     fn repeats_qos2(&self, publish: &Publish) -> bool {
         self.state.auto_ack
-- 
2.43.0


From 4d35a858f8664f9ac7c468b829d052fd1b2d1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 49/88] fix: queue messages beyond the receive maximum of the
 broker

---
 vaux-client/src/session.rs | 55 +++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 3ade015..4ac663d 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -1,6 +1,10 @@
 use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
-use std::{collections::HashMap, sync::Arc, time::Duration};
+use std::{
+    collections::{HashMap, VecDeque},
+    sync::Arc,
+    time::Duration,
+};
 use tokio::sync::{Mutex, RwLock};
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
@@ -74,8 +78,11 @@ pub struct SessionState {
     pub(crate) keep_alive: Arc<RwLock<Duration>>,
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
+    pub(crate) send_max: usize,
     pub(crate) qos_send_remaining: usize,
     pending_qos_send: HashMap<u16, QoSPacketState>,
+    // packet IDs of the pending messages that wait to be sent, in order
+    unsent_qos: VecDeque<u16>,
     pub(crate) receive_max: usize,
     pub(crate) qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -104,8 +111,10 @@ impl SessionState {
             )))),
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
+            send_max: u16::MAX as usize,
             qos_send_remaining: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
+            unsent_qos: VecDeque::new(),
             receive_max: u16::MAX as usize,
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
@@ -301,9 +310,7 @@ impl ClientSession {
             Packet::Publish(mut p) => {
                 if p.qos() == QoSLevel::AtLeastOnce || p.qos() == QoSLevel::ExactlyOnce {
                     // check the pending qos for available space
-                    if self.state.pending_qos_send.len() >= u16::MAX as usize
-                        || self.state.qos_send_remaining == 0
-                    {
+                    if self.state.pending_qos_send.len() >= u16::MAX as usize {
                         return Err(MqttError::new(
                             "pending QoS packets full",
                             ErrorKind::Protocol(Reason::ProtocolErr),
@@ -365,6 +372,9 @@ impl ClientSession {
                         }
                         _ => {}
                     }
+                    // sent when the broker is ready to receive it
+                    self.state.unsent_qos.push_back(p.packet_id().unwrap());
+                    return self.send_unsent().await;
                 }
                 self.send_packet(Packet::Publish(p)).await
             }
@@ -412,7 +422,7 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubAck => {
                             self.state.pending_qos_send.remove(&puback.packet_id);
-                            self.state.qos_send_remaining += 1;
+                            self.sent_qos();
                         }
                         _ => {
                             // protocol error, unexpected packet - disconnect
@@ -436,7 +446,7 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubRec if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) => {
                             // refused by the broker, the flow ends here
-                            self.state.qos_send_remaining += 1;
+                            self.sent_qos();
                         }
                         QoSPacket::PubRec if !self.state.auto_ack => {
                             // the client app sends the PUBREL
@@ -574,7 +584,7 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubComp => {
                             //  do nothing - removed from pending qos
-                            self.state.qos_send_remaining += 1;
+                            self.sent_qos();
                         }
                         _ => {
                             // protocol error, unexpected packet
@@ -597,6 +607,7 @@ impl ClientSession {
             }
             _ => {}
         }
+        self.send_unsent().await?;
         if packet_to_consumer {
             Ok(Some(packet))
         } else {
@@ -657,9 +668,9 @@ impl ClientSession {
             connack.session_present() && matches!(p.next, QoSPacket::PubRel | QoSPacket::PubComp)
         });
         // set the server assigned receive maximum
-        if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining = receive_max as usize;
-        }
+        self.state.send_max = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
+        self.state.qos_send_remaining = self.state.send_max;
+        self.send_unsent().await?;
         Ok(connack)
     }
 
@@ -802,6 +813,30 @@ impl ClientSession {
         }
     }
 
+    /// Sends the queued messages, in order, as far as the receive maximum of the broker allows.
+    async fn send_unsent(&mut self) -> Result<(), MqttError> {
+        while self.state.qos_send_remaining > 0
+            && let Some(packet_id) = self.state.unsent_qos.pop_front()
+        {
+            if let Some(QoSPacketState {
+                packet: Some(Packet::Publish(publish)),
+                ..
+            }) = self.state.pending_qos_send.get_mut(&packet_id)
+            {
+                let packet = Packet::Publish(publish.clone());
+                self.state.qos_send_remaining -= 1;
+                self.send_packet(packet).await?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Restores the send quota at the end of a flow.
+    fn sent_qos(&mut self) {
+        self.state.qos_send_remaining =
+            (self.state.qos_send_remaining + 1).min(self.state.send_max);
+    }
+
     /// Restores the receive quota at the end of a flow. A flow of an earlier connection
     /// does not count against the quota of this one.
     fn received_qos(&mut self) {
-- 
2.43.0


From ca1dedbefdeba7caf9292da3eac42f38fa314131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 50/88] fix: resend unacknowledged packets when a session is
 resumed

---
 vaux-client/src/session.rs | 53 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 4ac663d..b5a78f2 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -35,6 +35,8 @@ struct QoSPacketState {
     #[allow(dead_code)]
     packet: Option<Packet>,
     next: QoSPacket,
+    // the order in which the messages were published
+    order: u64,
 }
 
 impl QoSPacketState {
@@ -43,6 +45,7 @@ impl QoSPacketState {
             packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubAck,
+            order: 0,
         }
     }
 
@@ -51,6 +54,7 @@ impl QoSPacketState {
             packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubRec,
+            order: 0,
         }
     }
 
@@ -61,11 +65,13 @@ impl QoSPacketState {
                 packet_id: self.packet_id,
                 packet: None,
                 next: QoSPacket::PubRel,
+                order: self.order,
             }),
             QoSPacket::PubRel => Some(Self {
                 packet_id: self.packet_id,
                 packet: None,
                 next: QoSPacket::PubComp,
+                order: self.order,
             }),
             QoSPacket::PubComp => None,
         }
@@ -90,6 +96,7 @@ pub struct SessionState {
     pub(crate) max_packet_size: usize,
     pub(crate) auto_packet_id: bool,
     pub(crate) last_packet_id: u16,
+    published: u64,
     pub(crate) auto_ack: bool,
     pub(crate) pingresp: bool,
     pub(crate) keep_alive_enabled: bool,
@@ -122,6 +129,7 @@ impl SessionState {
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
             auto_packet_id: true,
             last_packet_id: 0,
+            published: 0,
             auto_ack: true,
             pingresp: false,
             keep_alive_enabled: true,
@@ -372,6 +380,12 @@ impl ClientSession {
                         }
                         _ => {}
                     }
+                    self.state.published += 1;
+                    if let Some(state) =
+                        self.state.pending_qos_send.get_mut(&p.packet_id().unwrap())
+                    {
+                        state.order = self.state.published;
+                    }
                     // sent when the broker is ready to receive it
                     self.state.unsent_qos.push_back(p.packet_id().unwrap());
                     return self.send_unsent().await;
@@ -670,7 +684,7 @@ impl ClientSession {
         // set the server assigned receive maximum
         self.state.send_max = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
         self.state.qos_send_remaining = self.state.send_max;
-        self.send_unsent().await?;
+        self.resume(connack.session_present()).await?;
         Ok(connack)
     }
 
@@ -813,6 +827,39 @@ impl ClientSession {
         }
     }
 
+    /// Continues the QoS flows of the previous connection. Without a session on the server
+    /// only the messages that were never sent are left to send.
+    async fn resume(&mut self, session_present: bool) -> Result<(), MqttError> {
+        if !session_present {
+            let unsent = &self.state.unsent_qos;
+            self.state.pending_qos_send.retain(|id, p| {
+                unsent.contains(id) && matches!(&p.packet, Some(Packet::Publish(p)) if !p.dup())
+            });
+        }
+        let mut pending: Vec<(u64, u16, QoSPacket)> = self
+            .state
+            .pending_qos_send
+            .iter()
+            .map(|(id, p)| (p.order, *id, p.next))
+            .collect();
+        pending.sort_unstable_by_key(|p| p.0);
+        self.state.unsent_qos.clear();
+        for (_, packet_id, next) in pending {
+            match next {
+                QoSPacket::PubAck | QoSPacket::PubRec => self.state.unsent_qos.push_back(packet_id),
+                QoSPacket::PubRel if !self.state.auto_ack => {}
+                QoSPacket::PubRel | QoSPacket::PubComp => {
+                    let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+                    self.send_packet(Packet::PubRel(pubrel)).await?;
+                    if let Some(state) = self.state.pending_qos_send.get_mut(&packet_id) {
+                        state.next = QoSPacket::PubComp;
+                    }
+                }
+            }
+        }
+        self.send_unsent().await
+    }
+
     /// Sends the queued messages, in order, as far as the receive maximum of the broker allows.
     async fn send_unsent(&mut self) -> Result<(), MqttError> {
         while self.state.qos_send_remaining > 0
@@ -824,6 +871,10 @@ impl ClientSession {
             }) = self.state.pending_qos_send.get_mut(&packet_id)
             {
                 let packet = Packet::Publish(publish.clone());
+                // sent again on the next connection unless it is acknowledged before
+                publish
+                    .set_dup(true)
+                    .map_err(|e| MqttError::new(&format!("{e}"), ErrorKind::Codec))?;
                 self.state.qos_send_remaining -= 1;
                 self.send_packet(packet).await?;
             }
-- 
2.43.0


From c7af8416fba15c112ccda6934aa9a50f97e20ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:02 +0000
Subject: [PATCH 51/88] fix: keep a received packet that the consumer has not
 taken in the session state

---
 vaux-client/src/client.rs  | 15 ++++++++-------
 vaux-client/src/session.rs | 11 +++++++++++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 4491fcf..00cd899 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -361,8 +361,10 @@ impl MqttClient {
             // This avoids the consumer's channel back-pressure deadlocking the
             // whole client (no further reads => no further PubAcks => the broker
             // eventually drops the connection for missed keep-alives).
-            let mut pending_forward: Option<Packet> = None;
+            // It is part of the session state, so that an acknowledged packet is not
+            // lost when the connection ends before the consumer has taken it.
             loop {
+                let undelivered = session.undelivered();
                 let keep_alive_remaining = keep_alive.saturating_sub(session.idle());
                 select! {
                     _ = MqttClient::keep_alive_timer(keep_alive_remaining), if keep_alive_enabled => {
@@ -376,10 +378,10 @@ impl MqttClient {
                             }
                         }
                     }
-                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, pending_forward.clone()), if pending_forward.is_some() => {
+                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, undelivered.clone()), if undelivered.is_some() => {
                         match forward_result {
                             Some(Ok(_)) => {
-                                pending_forward = None;
+                                session.set_undelivered(None);
                             }
                             Some(Err(e)) => {
                                 *connected.write().await = false;
@@ -388,12 +390,11 @@ impl MqttClient {
                                     session.end_session().await));
                             }
                             None => {
-                                // guard was true when checked but pending_forward was
-                                // already cleared by the time the expression ran; no-op
+                                // nothing to forward; no-op
                             }
                         }
                     }
-                    packet_result = session.read_next(), if pending_forward.is_none() => {
+                    packet_result = session.read_next(), if undelivered.is_none() => {
                         match packet_result {
                             Ok(Some(packet)) => {
                                 match session.handle_packet(packet).await {
@@ -408,7 +409,7 @@ impl MqttClient {
                                             Ok(_) => {}
                                             Err(TrySendError::Full(packet)) => {
                                                 // consumer is behind; pause reads until it catches up
-                                                pending_forward = Some(packet);
+                                                session.set_undelivered(Some(packet));
                                             }
                                             Err(TrySendError::Closed(_)) => {
                                                 *connected.write().await = false;
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index b5a78f2..fcbbda1 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -95,6 +95,8 @@ pub struct SessionState {
 
     pub(crate) max_packet_size: usize,
     pub(crate) auto_packet_id: bool,
+    // received, but not yet taken by the consumer
+    undelivered: Option<Packet>,
     pub(crate) last_packet_id: u16,
     published: u64,
     pub(crate) auto_ack: bool,
@@ -128,6 +130,7 @@ impl SessionState {
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
             auto_packet_id: true,
+            undelivered: None,
             last_packet_id: 0,
             published: 0,
             auto_ack: true,
@@ -196,6 +199,14 @@ impl ClientSession {
         self.state.auto_ack
     }
 
+    pub(crate) fn undelivered(&self) -> Option<Packet> {
+        self.state.undelivered.clone()
+    }
+
+    pub(crate) fn set_undelivered(&mut self, packet: Option<Packet>) {
+        self.state.undelivered = packet;
+    }
+
     pub(crate) fn keep_alive_enabled(&self) -> bool {
         self.state.keep_alive_enabled
     }
-- 
2.43.0


From ab7f949b978fa2b2b9b62198b53b2d4fc80e6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:59 +0000
Subject: [PATCH 52/88] fix: do not round one and a half times the keep alive
 down to whole seconds

---
 vaux-broker/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b178537..86d488a 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -499,12 +499,12 @@ impl Broker {
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
             ack.set_server_keep_alive(default_keep_alive_secs);
-            Duration::from_secs((default_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(u64::from(default_keep_alive_secs)).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
             ack.set_server_keep_alive(max_keep_alive_secs);
-            Duration::from_secs((max_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(u64::from(max_keep_alive_secs)).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
-            Duration::from_secs((connect.keep_alive as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(u64::from(connect.keep_alive)).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         };
         // handle the session expiry request
         let session_expiry = if let Some(requested_expiry) = connect.session_expiry_interval {
-- 
2.43.0


From 4b6dd14e0bfa377ab98fa6a7fa553d18d09a0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:06 +0000
Subject: [PATCH 53/88] fix: pass the error that ends the client to its error
 handler

---
 vaux-client/src/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 00cd899..d178185 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -332,7 +332,8 @@ impl MqttClient {
         };
         let _keep_alive = self.keep_alive.clone();
         let _session_expiry = self.session_expiry.clone();
-        Ok(tokio::spawn(async move {
+        let err_chan = self.err_chan.clone();
+        let client_task = async move {
             match session
                 .connect(max_connect_wait, credentials, clean_start, will_message)
                 .await
@@ -467,6 +468,14 @@ impl MqttClient {
                     return Ok(session.end_session().await);
                 }
             }
+        };
+        Ok(tokio::spawn(async move {
+            let result = client_task.await;
+            if let (Err(e), Some(err_chan)) = (&result, err_chan) {
+                // the error handler may be gone or behind, the error is returned in any case
+                let _ = err_chan.try_send(e.mqtt_error.clone());
+            }
+            result
         }))
     }
 
-- 
2.43.0


From af08e57e6c66c86a10bc2a17a440a5ffc08ca9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 54/88] fix: refuse strings with a null character

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 0d5225a..44e9939 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -591,6 +591,11 @@ impl Decode for String {
             )
         })?;
         *self = String::from_utf8(dest_vec).map_err(|e| MqttCodecError::new(&format!("{e:?}")))?;
+        if self.contains('\0') {
+            return Err(MqttCodecError::new(
+                "Mqttv5 1.5.4 a string must not contain the null character",
+            ));
+        }
         Ok(len as usize + 2)
     }
 }
-- 
2.43.0


From 5c12827f6f528c2416927aa5f72b8349db147ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 55/88] fix: refuse variable byte integers that are not as
 short as possible

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 44e9939..a912f44 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -757,6 +757,11 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
         result += ((next_byte & 0x7f) as u32) << shift;
         shift += 7;
         if next_byte & 0x80 == 0 {
+            if next_byte == 0 && shift > 7 {
+                return Err(MqttCodecError::new(
+                    "Mqttv5 1.5.5 a variable byte integer must use the minimum number of bytes",
+                ));
+            }
             decode = false;
         } else {
             // a variable byte integer has at most four bytes
-- 
2.43.0


From 10b043161384de4f5276e4ceff2e575ea8187d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 56/88] fix: refuse packets with packet identifier zero

---
 vaux-mqtt/src/codec/mod.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index a912f44..decc546 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -500,6 +500,17 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
     Ok(Some((packet, decode_len)))
 }
 
+/// A packet identifier is never zero.
+fn check_packet_id(packet_id: u16) -> Result<(), MqttCodecError> {
+    if packet_id == 0 {
+        return Err(MqttCodecError::new_with_kind(
+            "2.2.1 Packet identified must not be 0",
+            ErrorKind::InvalidPacketIdentifier,
+        ));
+    }
+    Ok(())
+}
+
 /// Decode the variable header and payload of a packet from a buffer that holds exactly that.
 fn decode_body(
     fixed_header: FixedHeader,
@@ -520,26 +531,33 @@ fn decode_body(
         PacketType::Publish => {
             let mut publish = Publish::new_from_header(fixed_header)?;
             decode_len += publish.decode(src)?;
+            if let Some(packet_id) = publish.packet_id() {
+                check_packet_id(packet_id)?;
+            }
             Ok((Packet::Publish(publish), decode_len))
         }
         PacketType::PubAck => {
             let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
+            check_packet_id(puback.packet_id)?;
             Ok((Packet::PubAck(puback), decode_len))
         }
         PacketType::PubComp => {
             let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
+            check_packet_id(pubcomp.packet_id)?;
             Ok((Packet::PubComp(pubcomp), decode_len))
         }
         PacketType::PubRec => {
             let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
+            check_packet_id(pubrec.packet_id)?;
             Ok((Packet::PubRec(pubrec), decode_len))
         }
         PacketType::PubRel => {
             let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
+            check_packet_id(pubrel.packet_id)?;
             Ok((Packet::PubRel(pubrel), decode_len))
         }
         PacketType::Disconnect => {
@@ -555,21 +573,25 @@ fn decode_body(
         PacketType::Subscribe => {
             let mut subscribe = Subscribe::default();
             decode_len += subscribe.decode(src)?;
+            check_packet_id(subscribe.packet_id)?;
             Ok((Packet::Subscribe(subscribe), decode_len))
         }
         PacketType::SubAck => {
             let mut suback = SubAck::default();
             decode_len += suback.decode(src)?;
+            check_packet_id(suback.packet_id())?;
             Ok((Packet::SubAck(suback), decode_len))
         }
         PacketType::Unsubscribe => {
             let mut unsubscribe = Unsubscribe::default();
             decode_len += unsubscribe.decode(src)?;
+            check_packet_id(unsubscribe.packet_id)?;
             Ok((Packet::Unsubscribe(unsubscribe), decode_len))
         }
         PacketType::UnsubAck => {
             let mut unsuback = UnsubAck::default();
             decode_len += unsuback.decode(src)?;
+            check_packet_id(unsuback.packet_id)?;
             Ok((Packet::UnsubAck(unsuback), decode_len))
         }
         _ => Err(MqttCodecError::new("unsupported packet type")),
-- 
2.43.0


From c44b0e1625e3f0553fe36ae45f350a785b1b5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 57/88] fix: refuse reason codes that do not belong to the
 packet type

---
 vaux-mqtt/src/codec/mod.rs | 108 +++++++++++++++++++++++++++++++++++++
 1 file changed, 108 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index decc546..c712734 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -208,6 +208,99 @@ impl TryFrom<u8> for Reason {
     }
 }
 
+impl Reason {
+    /// Is this one of the reason codes that a packet of the type may carry?
+    fn supported_by(self, packet_type: PacketType) -> bool {
+        use Reason::*;
+        match packet_type {
+            PacketType::ConnAck => matches!(
+                self,
+                Success
+                    | UnspecifiedErr
+                    | MalformedPacket
+                    | ProtocolErr
+                    | ImplementationErr
+                    | UnsupportedProtocolVersion
+                    | InvalidClientId
+                    | AuthenticationErr
+                    | NotAuthorized
+                    | ServerUnavailable
+                    | ServerBusy
+                    | Banned
+                    | AuthMethodErr
+                    | InvalidTopicName
+                    | PacketTooLarge
+                    | QuotaExceeded
+                    | PayloadFormatErr
+                    | RetainUnsupported
+                    | QoSUnsupported
+                    | UseDiffServer
+                    | ServerMoved
+                    | ConnRateExceeded
+            ),
+            PacketType::SubAck => matches!(
+                self,
+                Success
+                    | GrantedQoS1
+                    | GrantedQoS2
+                    | UnspecifiedErr
+                    | ImplementationErr
+                    | NotAuthorized
+                    | InvalidTopicFilter
+                    | PacketIdInUse
+                    | QuotaExceeded
+                    | SharedSubUnsupported
+                    | SubIdUnsupported
+                    | WildcardSubUnsupported
+            ),
+            PacketType::Disconnect => matches!(
+                self,
+                Success
+                    | DisconnectWillMsg
+                    | UnspecifiedErr
+                    | MalformedPacket
+                    | ProtocolErr
+                    | ImplementationErr
+                    | NotAuthorized
+                    | ServerBusy
+                    | ServerShutdown
+                    | KeepAliveTimeout
+                    | SessionTakeOver
+                    | InvalidTopicFilter
+                    | InvalidTopicName
+                    | ReceiveMaxExceeded
+                    | InvalidTopicAlias
+                    | PacketTooLarge
+                    | MessageRate
+                    | QuotaExceeded
+                    | AdminAction
+                    | PayloadFormatErr
+                    | RetainUnsupported
+                    | QoSUnsupported
+                    | UseDiffServer
+                    | ServerMoved
+                    | SharedSubUnsupported
+                    | ConnRateExceeded
+                    | MaxConnectTime
+                    | SubIdUnsupported
+                    | WildcardSubUnsupported
+            ),
+            _ => true,
+        }
+    }
+}
+
+/// Packets carry only the reason codes that are defined for their type.
+fn check_reasons(packet_type: PacketType, reasons: &[Reason]) -> Result<(), MqttCodecError> {
+    match reasons.iter().find(|r| !r.supported_by(packet_type)) {
+        Some(reason) => Err(MqttCodecError::new_with_kind(
+            "unsupported reason",
+            ErrorKind::UnsupportedReason(*reason as u8),
+        )),
+        None => Ok(()),
+    }
+}
+
 impl CodecSize for Reason {
     fn codec_size(&self) -> u32 {
         1
@@ -540,34 +633,48 @@ fn decode_body(
             let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             check_packet_id(puback.packet_id)?;
+            if let Some(reason) = puback.reason() {
+                puback.set_reason(reason)?;
+            }
             Ok((Packet::PubAck(puback), decode_len))
         }
         PacketType::PubComp => {
             let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             check_packet_id(pubcomp.packet_id)?;
+            if let Some(reason) = pubcomp.reason() {
+                pubcomp.set_reason(reason)?;
+            }
             Ok((Packet::PubComp(pubcomp), decode_len))
         }
         PacketType::PubRec => {
             let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             check_packet_id(pubrec.packet_id)?;
+            if let Some(reason) = pubrec.reason() {
+                pubrec.set_reason(reason)?;
+            }
             Ok((Packet::PubRec(pubrec), decode_len))
         }
         PacketType::PubRel => {
             let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             check_packet_id(pubrel.packet_id)?;
+            if let Some(reason) = pubrel.reason() {
+                pubrel.set_reason(reason)?;
+            }
             Ok((Packet::PubRel(pubrel), decode_len))
         }
         PacketType::Disconnect => {
             let mut disconnect = Disconnect::default();
             decode_len += disconnect.decode(src)?;
+            check_reasons(PacketType::Disconnect, &[disconnect.reason])?;
             Ok((Packet::Disconnect(disconnect), decode_len))
         }
         PacketType::ConnAck => {
             let mut connack = ConnAck::default();
             decode_len += connack.decode(src)?;
+            check_reasons(PacketType::ConnAck, &[connack.reason])?;
             Ok((Packet::ConnAck(connack), decode_len))
         }
         PacketType::Subscribe => {
@@ -580,6 +687,7 @@ fn decode_body(
             let mut suback = SubAck::default();
             decode_len += suback.decode(src)?;
             check_packet_id(suback.packet_id())?;
+            check_reasons(PacketType::SubAck, &suback.reason_codes)?;
             Ok((Packet::SubAck(suback), decode_len))
         }
         PacketType::Unsubscribe => {
-- 
2.43.0


From 2b4c1a98be2a529cb153477b57aab3474b53bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 58/88] fix: refuse a CONNACK with invalid acknowledge flags

---
 vaux-mqtt/src/codec/mod.rs |  1 +
 vaux-mqtt/src/connack.rs   | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index c712734..b5514b6 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -675,6 +675,7 @@ fn decode_body(
             let mut connack = ConnAck::default();
             decode_len += connack.decode(src)?;
             check_reasons(PacketType::ConnAck, &[connack.reason])?;
+            connack.check_flags()?;
             Ok((Packet::ConnAck(connack), decode_len))
         }
         PacketType::Subscribe => {
diff --git a/vaux-mqtt/src/connack.rs b/vaux-mqtt/src/connack.rs
index b17695f..ceceea2 100644
--- a/vaux-mqtt/src/connack.rs
+++ b/vaux-mqtt/src/connack.rs
@@ -62,6 +62,21 @@ impl ConnAck {
         }
     }
 
+    /// Checks the flags of a received packet.
+    pub(crate) fn check_flags(&self) -> Result<(), MqttCodecError> {
+        if self.ack_flags & !CONNACK_SESSION_PRESENT_MASK != 0 {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.2.2.1 the reserved acknowledge flags must be 0",
+            ));
+        }
+        if self.session_present() && self.reason != Reason::Success {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.2.2.1.1 session present must be 0 with a reason other than success",
+            ));
+        }
+        Ok(())
+    }
+
     pub fn set_session_expiry(&mut self, interval: u32) {
         if interval == 0 {
             self.session_expiry_interval = None;
-- 
2.43.0


From d0b0d4b17180189dd44d38b02b2bc4b60ca29742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 59/88] fix: refuse invalid subscription options

---
 vaux-mqtt/src/codec/mod.rs |  3 +++
 vaux-mqtt/src/subscribe.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index b5514b6..4dab634 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -682,6 +682,9 @@ fn decode_body(
             let mut subscribe = Subscribe::default();
             decode_len += subscribe.decode(src)?;
             check_packet_id(subscribe.packet_id)?;
+            for filter in &subscribe.filter {
+                filter.check_options()?;
+            }
             Ok((Packet::Subscribe(subscribe), decode_len))
         }
         PacketType::SubAck => {
diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index 413f384..4e541a8 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -100,6 +100,18 @@ impl SubscriptionFilter {
             .unwrap_or(QoSLevel::AtMostOnce)
     }
 
+    /// Checks the options of a received subscription.
+    pub(crate) fn check_options(&self) -> Result<(), MqttCodecError> {
+        if self.options & 0b1100_0000 != 0 {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.8.3.1 the reserved subscription option bits must be 0",
+            ));
+        }
+        QoSLevel::try_from(self.options & 0b0000_0011)?;
+        RetainHandling::try_from((self.options & 0b0011_0000) >> 4)?;
+        Ok(())
+    }
+
     pub fn with_qos(mut self, qos: QoSLevel) -> Self {
         self.set_qos(qos);
         self
-- 
2.43.0


From bc95c207ec07e0c3af2f33b5f91285908ac3c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 60/88] fix: refuse subscribe and unsubscribe packets with an
 empty payload

---
 vaux-mqtt/src/codec/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 4dab634..8c77920 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -290,6 +290,16 @@ impl Reason {
     }
 }
 
+/// Requests to subscribe and unsubscribe and their acknowledgements are about at least one filter.
+fn check_payload(entries: usize) -> Result<(), MqttCodecError> {
+    if entries == 0 {
+        return Err(MqttCodecError::new(
+            "malformed packet: no topic filter or reason code in the payload",
+        ));
+    }
+    Ok(())
+}
+
 /// Packets carry only the reason codes that are defined for their type.
 fn check_reasons(packet_type: PacketType, reasons: &[Reason]) -> Result<(), MqttCodecError> {
     match reasons.iter().find(|r| !r.supported_by(packet_type)) {
@@ -682,6 +692,7 @@ fn decode_body(
             let mut subscribe = Subscribe::default();
             decode_len += subscribe.decode(src)?;
             check_packet_id(subscribe.packet_id)?;
+            check_payload(subscribe.filter.len())?;
             for filter in &subscribe.filter {
                 filter.check_options()?;
             }
@@ -691,6 +702,7 @@ fn decode_body(
             let mut suback = SubAck::default();
             decode_len += suback.decode(src)?;
             check_packet_id(suback.packet_id())?;
+            check_payload(suback.reason_codes.len())?;
             check_reasons(PacketType::SubAck, &suback.reason_codes)?;
             Ok((Packet::SubAck(suback), decode_len))
         }
@@ -698,12 +710,14 @@ fn decode_body(
             let mut unsubscribe = Unsubscribe::default();
             decode_len += unsubscribe.decode(src)?;
             check_packet_id(unsubscribe.packet_id)?;
+            check_payload(unsubscribe.topics.len())?;
             Ok((Packet::Unsubscribe(unsubscribe), decode_len))
         }
         PacketType::UnsubAck => {
             let mut unsuback = UnsubAck::default();
             decode_len += unsuback.decode(src)?;
             check_packet_id(unsuback.packet_id)?;
+            check_payload(unsuback.reason_code.len())?;
             Ok((Packet::UnsubAck(unsuback), decode_len))
         }
         _ => Err(MqttCodecError::new("unsupported packet type")),
-- 
2.43.0


From 6bc80003af7c7bf5eac68f4b0d1f36d8d32120b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 61/88] fix: refuse a PUBLISH with DUP at QoS 0 or without
 topic name and alias

---
 vaux-mqtt/src/publish.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 85e7caf..effe330 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -292,6 +292,10 @@ impl codec::Decode for Publish {
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
             self.packet_id = Some(src.try_get_u16()?);
             bytes_read += 2;
+        } else if self.fixed_header.dup() {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.3.1.1 DUP must be 0 for QoS 0 messages",
+            ));
         }
 
         let (property_length, var_bytes_read) = codec::decode_variable_byte_int(src)?;
@@ -357,6 +361,11 @@ impl codec::Decode for Publish {
             ));
         }
         bytes_read += property_bytes_read;
+        if self.topic_name.is_empty() && self.topic_alias.is_none() {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.3.2.1 a topic name or a topic alias is required",
+            ));
+        }
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
         bytes_read += decode_bytes_read;
-- 
2.43.0


From 6ceed14d8cab1fefd7b33918a7df28028810b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 62/88] fix: refuse properties that are included more than once

---
 vaux-macro/src/decode.rs   |  2 ++
 vaux-mqtt/src/codec/mod.rs | 17 +++++++++++++++++
 vaux-mqtt/src/connect.rs   |  2 ++
 vaux-mqtt/src/publish.rs   |  5 +++++
 4 files changed, 26 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 5d4fed0..9b35700 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -82,6 +82,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             let property_length = property_length as usize;
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
+            let mut seen_properties = codec::SeenProperties::default();
             while property_bytes_read < property_length {
                 if !src.has_remaining() {
                     return Err(codec::MqttCodecError::new_with_kind(
@@ -91,6 +92,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 }
                 let property_type = src.get_u8().try_into()?;
                 property_bytes_read += 1;
+                seen_properties.once(property_type)?;
                 match property_type {
                     #(#property_field_decode)*
                     _ => {
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 8c77920..cfafac0 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -290,6 +290,23 @@ impl Reason {
     }
 }
 
+/// Remembers the properties of a packet that have been decoded, as only some may occur repeatedly.
+#[derive(Default)]
+pub(crate) struct SeenProperties(u64);
+
+impl SeenProperties {
+    pub(crate) fn once(&mut self, property_type: crate::PropertyType) -> Result<(), MqttCodecError> {
+        let bit = 1_u64 << property_type as u8;
+        if property_type != crate::PropertyType::UserProperty && self.0 & bit != 0 {
+            return Err(MqttCodecError::new(
+                "Mqttv5 2.2.2 a property must not be included more than once",
+            ));
+        }
+        self.0 |= bit;
+        Ok(())
+    }
+}
+
 /// Requests to subscribe and unsubscribe and their acknowledgements are about at least one filter.
 fn check_payload(entries: usize) -> Result<(), MqttCodecError> {
     if entries == 0 {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index e62b24e..7421ee3 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -230,9 +230,11 @@ impl codec::Decode for Connect {
         let property_length = property_length as usize;
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
+        let mut seen_properties = codec::SeenProperties::default();
         while property_bytes_read < property_length {
             let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
+            seen_properties.once(property_type)?;
             match property_type {
                 PropertyType::SessionExpiryInterval => {
                     let mut value = u32::default();
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index effe330..0c628b2 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -302,9 +302,14 @@ impl codec::Decode for Publish {
         let property_length = property_length as usize;
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
+        let mut seen_properties = codec::SeenProperties::default();
         while property_bytes_read < property_length {
             let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
+            // a message that matches several subscriptions has the identifiers of all of them
+            if property_type != PropertyType::SubscriptionIdentifier {
+                seen_properties.once(property_type)?;
+            }
             match property_type {
                 PropertyType::MessageExpiry => {
                     let mut value = u32::default();
-- 
2.43.0


From a3d1c9ebb7caf89ce5629cddc7da27e927a81d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:16 +0000
Subject: [PATCH 63/88] fix: refuse property values outside the range MQTT
 defines

---
 vaux-macro/src/decode.rs   |  9 ++++++++-
 vaux-mqtt/src/codec/mod.rs | 13 +++++++++++++
 vaux-mqtt/src/connect.rs   | 12 ++++++++----
 vaux-mqtt/src/publish.rs   |  2 ++
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 9b35700..5a0af19 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -406,7 +406,14 @@ fn decode_for_primitive(
                 "i16" => (quote! {src.get_i16()}, quote! {2}),
                 "u32" => (quote! {src.get_u32()}, quote! {4}),
                 "i32" => (quote! {src.get_i32()}, quote! {4}),
-                "bool" => (quote! {src.get_u8() != 0}, quote! {1}),
+                "bool" => (
+                    quote! {{
+                        let mut value = bool::default();
+                        codec::Decode::decode(&mut value, src)?;
+                        value
+                    }},
+                    quote! {1},
+                ),
                 _ => return compile_error2("Unsupported primitive type for Decode derive"),
             }
         }
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index cfafac0..26f00e1 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -620,6 +620,16 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
     Ok(Some((packet, decode_len)))
 }
 
+/// Receive maximum, maximum packet size, topic alias and subscription identifier are never zero.
+pub(crate) fn check_not_zero(value: Option<u32>) -> Result<(), MqttCodecError> {
+    if value == Some(0) {
+        return Err(MqttCodecError::new(
+            "malformed packet: property value must not be 0",
+        ));
+    }
+    Ok(())
+}
+
 /// A packet identifier is never zero.
 fn check_packet_id(packet_id: u16) -> Result<(), MqttCodecError> {
     if packet_id == 0 {
@@ -703,6 +713,8 @@ fn decode_body(
             decode_len += connack.decode(src)?;
             check_reasons(PacketType::ConnAck, &[connack.reason])?;
             connack.check_flags()?;
+            check_not_zero(connack.receive_maximum.map(u32::from))?;
+            check_not_zero(connack.maximum_packet_size)?;
             Ok((Packet::ConnAck(connack), decode_len))
         }
         PacketType::Subscribe => {
@@ -710,6 +722,7 @@ fn decode_body(
             decode_len += subscribe.decode(src)?;
             check_packet_id(subscribe.packet_id)?;
             check_payload(subscribe.filter.len())?;
+            check_not_zero(subscribe.subscription_id)?;
             for filter in &subscribe.filter {
                 filter.check_options()?;
             }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 7421ee3..d5bc257 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -255,12 +255,14 @@ impl codec::Decode for Connect {
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
-                    self.request_response_info = Some(src.try_get_u8()? != 0);
-                    property_bytes_read += 1;
+                    let mut value = bool::default();
+                    property_bytes_read += value.decode(src)?;
+                    self.request_response_info = Some(value);
                 }
                 PropertyType::ReqProblemInfo => {
-                    self.request_problem_info = Some(src.try_get_u8()? != 0);
-                    property_bytes_read += 1;
+                    let mut value = bool::default();
+                    property_bytes_read += value.decode(src)?;
+                    self.request_problem_info = Some(value);
                 }
                 PropertyType::AuthMethod => {
                     let mut value = String::default();
@@ -293,6 +295,8 @@ impl codec::Decode for Connect {
             ));
         }
         bytes_read += property_bytes_read;
+        codec::check_not_zero(self.receive_maximum.map(u32::from))?;
+        codec::check_not_zero(self.max_packet_size)?;
 
         // payload: client_id (always present)
         bytes_read += self.client_id.decode(src)?;
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 0c628b2..79d5c0c 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -338,6 +338,7 @@ impl codec::Decode for Publish {
                 PropertyType::SubscriptionIdentifier => {
                     let (value, decode_bytes_read) = codec::decode_opt_variable_byte_int(src)?;
                     property_bytes_read += decode_bytes_read;
+                    codec::check_not_zero(value)?;
                     self.subscription_identifiers = value;
                 }
                 PropertyType::ContentType => {
@@ -366,6 +367,7 @@ impl codec::Decode for Publish {
             ));
         }
         bytes_read += property_bytes_read;
+        codec::check_not_zero(self.topic_alias.map(u32::from))?;
         if self.topic_name.is_empty() && self.topic_alias.is_none() {
             return Err(MqttCodecError::new(
                 "Mqttv5 3.3.2.1 a topic name or a topic alias is required",
-- 
2.43.0


From 5f57b36f6dc9d58d15c6d358a8abbe7b7e1f8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:16 +0000
Subject: [PATCH 64/88] fix: refuse authentication data without an
 authentication method

---
 vaux-mqtt/src/connect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index d5bc257..16485a9 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -297,6 +297,11 @@ impl codec::Decode for Connect {
         bytes_read += property_bytes_read;
         codec::check_not_zero(self.receive_maximum.map(u32::from))?;
         codec::check_not_zero(self.max_packet_size)?;
+        if self.auth_method.is_none() && !self.auth_data.is_empty() {
+            return Err(MqttCodecError::new(
+                "Mqttv5 3.1.2.11 authentication data without authentication method",
+            ));
+        }
 
         // payload: client_id (always present)
         bytes_read += self.client_id.decode(src)?;
-- 
2.43.0


From f7f8f785bb616683eb1ef0f56d831a605e05ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:22 +0000
Subject: [PATCH 65/88] fix: refuse a CONNACK with maximum QoS 2

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 26f00e1..45175cf 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -715,6 +715,11 @@ fn decode_body(
             connack.check_flags()?;
             check_not_zero(connack.receive_maximum.map(u32::from))?;
             check_not_zero(connack.maximum_packet_size)?;
+            if connack.maximum_qos == Some(QoSLevel::ExactlyOnce) {
+                return Err(MqttCodecError::new(
+                    "Mqttv5 3.2.2.3.4 maximum QoS must be 0 or 1",
+                ));
+            }
             Ok((Packet::ConnAck(connack), decode_len))
         }
         PacketType::Subscribe => {
-- 
2.43.0


From 4ac372f5cfd11e24e8c7493ec33c8ae14377b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 66/88] fix: refuse a PUBLISH without topic name

---
 vaux-broker/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 86d488a..2fe72eb 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -353,6 +353,12 @@ impl Broker {
                         "PUBLISH topic name contains a wildcard",
                     ).into());
                 }
+                if publish.topic_name.is_empty() {
+                    // the broker announces no topic alias maximum, so no alias is ever set
+                    let disconnect = Disconnect::new(Reason::InvalidTopicAlias);
+                    stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                    return Err(MqttCodecError::new("PUBLISH without topic name").into());
+                }
                 let session_id = {
                     let session = session.read().await;
                     session.id().to_string()
-- 
2.43.0


From daadd00536cf209df19c4ad6fa74c944868cb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:08 +0000
Subject: [PATCH 67/88] fix: apply the session expiry interval of DISCONNECT

---
 vaux-broker/src/lib.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2fe72eb..7a937ef 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -126,6 +126,27 @@ impl ClientSession {
             session.clear_will();
         }
     }
+
+    /// Applies the session expiry interval of a DISCONNECT, if it has one. Returns false if
+    /// the client must not set it because the session was to expire with its connection.
+    async fn update_expiry(&self, interval: Option<u32>, state: &BrokerState) -> bool {
+        let Some(interval) = interval else {
+            return true;
+        };
+        let max_expiry = state.session_pool.read().await.session_expiry();
+        let mut session = self.session.write().await;
+        if session.connection() != self.connection {
+            return true;
+        }
+        if session.session_expiry.is_none() {
+            return interval == 0;
+        }
+        session.session_expiry = match interval {
+            0 => None,
+            _ => Some(max_expiry.min(Duration::from_secs(u64::from(interval)))),
+        };
+        true
+    }
 }
 
 impl Broker {
@@ -273,6 +294,13 @@ impl Broker {
                         Ok(Some(packet)) => {
                             if let Some(client) = client_session {
                                 if let Packet::Disconnect(packet) = &packet {
+                                    if !client.update_expiry(packet.session_expiry_interval, state).await {
+                                        let disconnect = Disconnect::new(Reason::ProtocolErr);
+                                        stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                                        return Err(MqttCodecError::new(
+                                            "DISCONNECT with a session expiry, CONNECT without",
+                                        ).into());
+                                    }
                                     if let Reason::Success = packet.reason {
                                         client.clear_will().await;
                                     }
-- 
2.43.0


From 45783187dd1aabe3dcd7f2a74305f4e7caf4feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:08 +0000
Subject: [PATCH 68/88] fix: end a session without expiry interval when it is
 taken over

---
 vaux-broker/src/lib.rs     | 3 ++-
 vaux-broker/src/session.rs | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 7a937ef..2dd758c 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -580,7 +580,8 @@ impl Broker {
             return Ok(None);
         }
 
-        let expired = session_pool.inactive_expired(&session_id).await;
+        let expired = session_pool.inactive_expired(&session_id).await
+            || session_pool.active_transient(&session_id).await;
         let session: Arc<RwLock<Session>> = if connect.clean_start() || expired {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
                 let connected = { existing_session.read().await.connected() };
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 431cee4..72c009c 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -158,6 +158,15 @@ impl SessionPool {
         }
     }
 
+    /// Returns true if the active session pool contains the session and the session ends with
+    /// the connection that owns it.
+    pub async fn active_transient(&self, session_id: &str) -> bool {
+        match self.active.get(session_id) {
+            Some(session) => session.read().await.session_expiry().is_none(),
+            None => false,
+        }
+    }
+
     /// Deactivates a session if the active session pool contains the session.
     /// The session is removed from the active pool and added to the inactive pool.
     /// The active session count is decremented and the inactive session count is
-- 
2.43.0


From 950c6b056141280e27ea3b89206a5f7ad3fb33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:09 +0000
Subject: [PATCH 69/88] fix: publish a delayed will message when its session
 ends

---
 vaux-broker/src/lib.rs     | 35 +++++++++++++++++++++++++++++------
 vaux-broker/src/session.rs | 18 ++++++++++++------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2dd758c..4d420da 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -582,9 +582,17 @@ impl Broker {
 
         let expired = session_pool.inactive_expired(&session_id).await
             || session_pool.active_transient(&session_id).await;
+        let mut ended_will = None;
         let session: Arc<RwLock<Session>> = if connect.clean_start() || expired {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
-                let connected = { existing_session.read().await.connected() };
+                let connected = {
+                    let mut existing_session = existing_session.write().await;
+                    // the session ends here, and its will does not wait any longer
+                    ended_will = existing_session
+                        .take_will()
+                        .or(existing_session.take_pending_will());
+                    existing_session.connected()
+                };
                 if connected {
                     let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
                 }
@@ -638,6 +646,9 @@ impl Broker {
             (session.connection(), session.take_control_receiver())
         };
         drop(session_pool);
+        if let Some(will) = ended_will {
+            Broker::publish_will(&will, state).await;
+        }
         tracing::info!(session_id = %session_id, "client connected");
         let client = ClientSession {
             session_id,
@@ -687,23 +698,35 @@ impl Broker {
         }
         if let Some(will) = session.take_will() {
             tracing::debug!(topic = %will.topic, "publishing will message");
-            let delay_secs = will.header.will_delay.unwrap_or(0);
-            if delay_secs == 0 {
+            // the will is published at the latest when the session ends
+            let delay = Duration::from_secs(u64::from(will.header.will_delay.unwrap_or(0)))
+                .min(session.session_expiry().unwrap_or_default());
+            if delay.is_zero() {
                 drop(session);
                 Broker::publish_will(&will, state).await;
             } else {
                 let token = tokio_util::sync::CancellationToken::new();
                 let child_token = token.child_token();
                 let state = state.clone();
+                let pending_session = Arc::clone(&client.session);
                 tokio::spawn(async move {
                     tokio::select! {
-                        _ = tokio::time::sleep(Duration::from_secs(delay_secs as u64)) => {
-                            Broker::publish_will(&will, &state).await;
+                        _ = tokio::time::sleep(delay) => {
+                            let will = {
+                                let mut session = pending_session.write().await;
+                                if child_token.is_cancelled() {
+                                    return;
+                                }
+                                session.take_pending_will()
+                            };
+                            if let Some(will) = will {
+                                Broker::publish_will(&will, &state).await;
+                            }
                         }
                         _ = child_token.cancelled() => {}
                     }
                 });
-                session.set_pending_will(token);
+                session.set_pending_will(will, token);
             }
         }
     }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 72c009c..759b9e2 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -207,7 +207,7 @@ pub struct Session {
     keep_alive: Duration,
     pub session_expiry: Option<Duration>,
     will_message: Option<WillMessage>,
-    pending_will: Option<CancellationToken>,
+    pending_will: Option<(WillMessage, CancellationToken)>,
     next_packet_id: u16,
     pending_ack: HashMap<u16, Publish>,
     connection: u64,
@@ -320,15 +320,21 @@ impl Session {
         self.will_message.take()
     }
 
-    pub fn set_pending_will(&mut self, token: CancellationToken) {
+    pub fn set_pending_will(&mut self, will: WillMessage, token: CancellationToken) {
         self.cancel_pending_will();
-        self.pending_will = Some(token);
+        self.pending_will = Some((will, token));
+    }
+
+    /// Takes the will message whose delay has not passed yet. It is not published any more
+    /// when its delay has passed.
+    pub fn take_pending_will(&mut self) -> Option<WillMessage> {
+        let (will, token) = self.pending_will.take()?;
+        token.cancel();
+        Some(will)
     }
 
     pub fn cancel_pending_will(&mut self) {
-        if let Some(token) = self.pending_will.take() {
-            token.cancel();
-        }
+        let _ = self.take_pending_will();
     }
 
     /// Returns a packet identifier that is not zero and, unless all of them are, not in
-- 
2.43.0


From 855d18b934758db2ddab5daab9d85bdcf39d343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:09 +0000
Subject: [PATCH 70/88] fix: publish a will message without delay when its
 connection is taken over

---
 vaux-broker/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 4d420da..6316e5d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -619,6 +619,10 @@ impl Broker {
                 {
                     let _ = Broker::handle_takeover(Arc::clone(&session)).await;
                     let mut session = session.write().await;
+                    // the client is back before any delay has passed
+                    ended_will = session
+                        .take_will()
+                        .filter(|will| will.header.will_delay.unwrap_or(0) == 0);
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
-- 
2.43.0


From 0944fdda9a0330ac8c61a6f1b7c8e34ae6bd1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:41 +0000
Subject: [PATCH 71/88] fix: do not deliver a message twice when its session is
 being resumed

---
 vaux-broker/src/lib.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 6316e5d..07a43ff 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -111,6 +111,15 @@ impl Default for Broker {
     }
 }
 
+/// An accepted connection: its session, the messages for it and its CONNACK. The unacknowledged
+/// messages of the session are those that are not sent to the control receiver.
+type NewConnection = (
+    ClientSession,
+    Option<ControlReceiver>,
+    Vec<(u16, Publish)>,
+    ConnAck,
+);
+
 /// The session of a connected client together with the connection that owns it.
 struct ClientSession {
     session_id: String,
@@ -310,13 +319,11 @@ impl Broker {
                                 }
                                 Broker::handle_packet(packet, stream, Arc::clone(&client.session), state).await?;
                             } else {
-                                if let Some((client, control, ack)) = Broker::handle_pre_connect(packet, stream, state).await? {
+                                if let Some((client, control, pending, ack)) = Broker::handle_pre_connect(packet, stream, state).await? {
                                     keep_alive = client.keep_alive;
                                     session_control = control;
-                                    let session = Arc::clone(&client.session);
                                     *client_session = Some(client);
                                     stream.write(&mut Packet::ConnAck(ack)).await?;
-                                    let pending = session.read().await.pending();
                                     for (packet_id, mut publish) in pending {
                                         publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
@@ -489,7 +496,7 @@ impl Broker {
         packet: Packet,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<(ClientSession, Option<ControlReceiver>, ConnAck)>, BrokerError> {
+    ) -> Result<Option<NewConnection>, BrokerError> {
         match packet {
             Packet::Connect(packet) => {
                 if !state.accepting_connections() {
@@ -520,7 +527,7 @@ impl Broker {
         connect: Connect,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<(ClientSession, Option<ControlReceiver>, ConnAck)>, BrokerError> {
+    ) -> Result<Option<NewConnection>, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
         let (default_keep_alive_secs, max_keep_alive_secs) = {
@@ -644,10 +651,14 @@ impl Broker {
                 new_session
             }
         };
-        let (connection, control) = {
+        let (connection, control, pending) = {
             let mut session = session.write().await;
             session.session_expiry = session_expiry;
-            (session.connection(), session.take_control_receiver())
+            (
+                session.connection(),
+                session.take_control_receiver(),
+                session.pending(),
+            )
         };
         drop(session_pool);
         if let Some(will) = ended_will {
@@ -660,7 +671,7 @@ impl Broker {
             connection,
             keep_alive,
         };
-        Ok(Some((client, control, ack)))
+        Ok(Some((client, control, pending, ack)))
     }
 
     /// Completes when the keep alive time has passed since the last packet was received.
-- 
2.43.0


From c606563a90de33fa5905c6e83ce553f0666faebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:32 +0000
Subject: [PATCH 72/88] fix: keep QoS 1 and 2 messages for sessions whose
 client is away

---
 vaux-broker/src/lib.rs     | 20 +++++++++++++++++---
 vaux-broker/src/session.rs | 21 ++++++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 07a43ff..a00a33c 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -325,7 +325,6 @@ impl Broker {
                                     *client_session = Some(client);
                                     stream.write(&mut Packet::ConnAck(ack)).await?;
                                     for (packet_id, mut publish) in pending {
-                                        publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
@@ -779,7 +778,14 @@ impl Broker {
             let granted_qos = std::cmp::min(publish.qos() as u8, sub.qos as u8);
             let qos: QoSLevel = granted_qos.try_into().unwrap_or(QoSLevel::AtMostOnce);
 
-            if let Some(target_session) = session_pool.get_active(&sub.session_id) {
+            let active = session_pool.get_active(&sub.session_id);
+            let connected = active.is_some();
+            // the session of a client that is away keeps the messages it must not lose
+            let target_session = match qos {
+                QoSLevel::AtMostOnce => active,
+                _ => active.or_else(|| session_pool.get_inactive(&sub.session_id)),
+            };
+            if let Some(target_session) = target_session {
                 let mut out = publish.clone();
                 out.set_qos(qos);
                 // the duplicate flag and the topic alias belong to the sender's connection
@@ -791,9 +797,17 @@ impl Broker {
                 out.subscription_identifiers = sub.subscription_id;
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
+                    if !connected && (target.expired() || target.pending_full()) {
+                        continue;
+                    }
                     let packet_id = target.next_packet_id();
                     let _ = out.set_packet_id(Some(packet_id));
-                    target.track_qos_publish(packet_id, out.clone());
+                    let mut tracked = out.clone();
+                    tracked.set_dup(connected).ok();
+                    target.track_qos_publish(packet_id, tracked);
+                    if !connected {
+                        continue;
+                    }
                     if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
                         tracing::warn!(
                             session_id = %sub.session_id,
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 759b9e2..05d90df 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -113,6 +113,12 @@ impl SessionPool {
         self.active.get(session_id).map(Arc::clone)
     }
 
+    /// Retreives an inactive session from the pool if the session is found in the inactive
+    /// session pool. The session is not removed from the pool.
+    pub fn get_inactive(&self, session_id: &str) -> Option<Arc<RwLock<Session>>> {
+        self.inactive.get(session_id).map(Arc::clone)
+    }
+
     /// Removes an active session from the pool. The session is removed from the active
     /// pool and the active session count is decremented. The session is returned if found.
     /// If the session is not found, the function returns None.
@@ -366,15 +372,24 @@ impl Session {
         self.pending_ack.len()
     }
 
-    /// Returns the messages that are still to be acknowledged, oldest first. The messages
-    /// keep their packet identifiers and remain pending until they are acknowledged.
-    pub fn pending(&self) -> Vec<(u16, Publish)> {
+    /// Returns true if no further packet identifier can be used for a message.
+    pub fn pending_full(&self) -> bool {
+        self.pending_ack.len() >= usize::from(u16::MAX)
+    }
+
+    /// Returns the messages that are still to be acknowledged, oldest first, to be sent. The
+    /// messages keep their packet identifiers and remain pending until they are acknowledged;
+    /// from the second time on that they are sent they are duplicates.
+    pub fn pending(&mut self) -> Vec<(u16, Publish)> {
         let mut pending: Vec<(u16, Publish)> = self
             .pending_ack
             .iter()
             .map(|(id, publish)| (*id, publish.clone()))
             .collect();
         pending.sort_by_key(|(id, _)| id.wrapping_sub(self.next_packet_id));
+        for publish in self.pending_ack.values_mut() {
+            publish.set_dup(true).ok();
+        }
         pending
     }
 
-- 
2.43.0


From b3ede34822b158d37ba6f344227fc5c6945a0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:18 +0000
Subject: [PATCH 73/88] fix: flush a written packet, a TLS stream may hold back
 the end of it

---
 vaux-async/src/stream/packet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 0c0669c..d949109 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -170,6 +170,10 @@ impl PacketStream {
         if let Err(e) = self.stream.write_all(&dest).await {
             return Err(Error::Io(e));
         }
+        // a TLS stream may still hold some of the bytes
+        if let Err(e) = self.stream.flush().await {
+            return Err(Error::Io(e));
+        }
         Ok(())
     }
 
-- 
2.43.0


From f32de258a0762c80b770e831bf624695434150e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:18 +0000
Subject: [PATCH 74/88] fix: limit the time for a TLS handshake as that for
 connecting

---
 vaux-client/src/connection.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/connection.rs b/vaux-client/src/connection.rs
index c88341c..b408a0e 100644
--- a/vaux-client/src/connection.rs
+++ b/vaux-client/src/connection.rs
@@ -115,8 +115,8 @@ impl MqttConnection {
         }
         let socket_addr = socket_addr.unwrap().next().unwrap();
 
-        match tokio::time::timeout(timeout, TcpStream::connect(&socket_addr)).await {
-            Ok(result) => match result {
+        let connecting = async {
+            match TcpStream::connect(&socket_addr).await {
                 Ok(stream) => {
                     if self.tls {
                         self.stream = Some(self.connect_tls(stream).await?);
@@ -130,7 +130,10 @@ impl MqttConnection {
                     &format!("unable to connect: {e}"),
                     ErrorKind::Connection,
                 )),
-            },
+            }
+        };
+        match tokio::time::timeout(timeout, connecting).await {
+            Ok(result) => result,
             Err(_e) => Err(MqttError {
                 message: "timeout".to_string(),
                 kind: ErrorKind::Timeout,
-- 
2.43.0


From 10e05b62c0ec31657d81554ecf754667914197ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:57 +0000
Subject: [PATCH 75/88] fix: observe the maximum connection wait time while
 connecting

---
 vaux-client/src/client.rs     | 2 +-
 vaux-client/src/connection.rs | 7 -------
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index d178185..388a6b6 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -311,7 +311,7 @@ impl MqttClient {
         let connected = self.connected.clone();
         let filter_channel = self.filter_channel.clone();
         if let Some(connection) = self.connection.as_mut() {
-            match connection.connect().await {
+            match connection.connect_with_timeout(max_connect_wait).await {
                 Ok(c) => c,
                 Err(e) => {
                     return Err(MqttError::new(
diff --git a/vaux-client/src/connection.rs b/vaux-client/src/connection.rs
index b408a0e..ada3d96 100644
--- a/vaux-client/src/connection.rs
+++ b/vaux-client/src/connection.rs
@@ -12,7 +12,6 @@ use crate::{ErrorKind, MqttError};
 const DEFAULT_HOST: &str = "localhost";
 pub const DEFAULT_PORT: u16 = 1883;
 pub const DEFAULT_SECURE_PORT: u16 = 8883;
-const DEFAULT_CONNECTION_TIMEOUT: u64 = 30_000;
 
 pub struct MqttConnection {
     host: String,
@@ -89,12 +88,6 @@ impl MqttConnection {
         self.stream.take()
     }
 
-    pub(crate) async fn connect(&mut self) -> crate::Result<()> {
-        self.connect_with_timeout(Duration::from_millis(DEFAULT_CONNECTION_TIMEOUT))
-            .await?;
-        Ok(())
-    }
-
     pub(crate) async fn connect_with_timeout(&mut self, timeout: Duration) -> crate::Result<()> {
         // if not set via with_tls or with_port, set the port to the default
         if self.port.is_none() {
-- 
2.43.0


From 67f77fc269034a522dab289e09ef20cef35fa658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:27 +0000
Subject: [PATCH 76/88] fix: keep to the time limit of try_start, and do not
 connect after it has failed

---
 vaux-client/src/client.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 388a6b6..071c63f 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -243,8 +243,16 @@ impl MqttClient {
         max_wait: Duration,
         clean_start: bool,
     ) -> crate::Result<JoinHandle<Result<SessionState, ClientError>>> {
-        let handle = self.start(clean_start).await;
-        match tokio::time::timeout(max_wait, {
+        let begin = tokio::time::Instant::now();
+        let handle = tokio::time::timeout(max_wait, self.start(clean_start))
+            .await
+            .map_err(|e| {
+                MqttError::new(
+                    &format!("unable to connect to broker: {e}"),
+                    ErrorKind::Transport,
+                )
+            })??;
+        match tokio::time::timeout(max_wait.saturating_sub(begin.elapsed()), {
             async {
                 while !self.connected().await {
                     tokio::time::sleep(std::time::Duration::from_millis(100)).await;
@@ -255,13 +263,14 @@ impl MqttClient {
         {
             Ok(_) => 
             {
-                handle
+                Ok(handle)
             }
             Err(start_err) => {
-                // if the client is connected then stop the client
-                if self.connected().await
-                    && let Err(stop_err) = self.stop().await
-                {
+                // if the client is connected then stop the client, otherwise it must not
+                // connect later on
+                if !self.connected().await {
+                    handle.abort();
+                } else if let Err(stop_err) = self.stop().await {
                     return Err(MqttError::new(
                         &format!(
                             "error starting: {start_err} unable to stop client: {stop_err} "
-- 
2.43.0


From 2b60b486c3ce5ff7665adada0e46ca13ddaa7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:50 +0000
Subject: [PATCH 77/88] fix: go on after a connection could not be accepted

---
 vaux-broker/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index a00a33c..8746e99 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -28,6 +28,7 @@ use vaux_mqtt::{
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
 #[derive(Debug)]
 pub enum BrokerError {
@@ -234,8 +235,10 @@ impl Broker {
                                         });
                                     }
                                     Err(e) => {
+                                        // one connection that cannot be accepted does not end the service;
+                                        // wait, the cause may be a lack of resources
                                         tracing::error!(error = %e, "error accepting connection");
-                                        return Err(e.into());
+                                        tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
                                     }
                                 }
                             }
-- 
2.43.0


From fad1d80d6051602726cd9cab9f23948551542857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:50 +0000
Subject: [PATCH 78/88] fix: refuse a CONNECT with an authentication method,
 none is supported

---
 vaux-broker/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 8746e99..46a038b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -539,6 +539,19 @@ impl Broker {
                 session_pool.max_keep_alive_secs(),
             )
         };
+        // no authentication method is supported
+        let refused = if connect.auth_method.is_some() {
+            Some(Reason::AuthMethodErr)
+        } else {
+            None
+        };
+        if let Some(reason) = refused {
+            tracing::info!(?reason, "connection rejected");
+            ack.reason = reason;
+            stream.write(&mut Packet::ConnAck(ack)).await?;
+            stream.shutdown().await?;
+            return Ok(None);
+        }
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
             ack.set_server_keep_alive(default_keep_alive_secs);
-- 
2.43.0


From 32190ac5d53536817d94ae3e327f33c037a1112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:50 +0000
Subject: [PATCH 79/88] fix: refuse a CONNECT whose will topic is empty or
 contains a wildcard

---
 vaux-broker/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 46a038b..7677624 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -540,8 +540,11 @@ impl Broker {
             )
         };
         // no authentication method is supported
+        let will = connect.will_message();
         let refused = if connect.auth_method.is_some() {
             Some(Reason::AuthMethodErr)
+        } else if will.is_some_and(|w| w.topic.is_empty() || w.topic.contains(['+', '#'])) {
+            Some(Reason::InvalidTopicName)
         } else {
             None
         };
-- 
2.43.0


From 33e58546ea661bb5b87ac4405871527ceba9cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:50 +0000
Subject: [PATCH 80/88] fix: close a connection on which a client sends a
 packet that only servers may send

---
 vaux-broker/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 7677624..b8f7de1 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -428,6 +428,14 @@ impl Broker {
                 stream.write(&mut Packet::Disconnect(disconnect)).await?;
                 Err(MqttCodecError::new("second CONNECT on a connection").into())
             }
+            Packet::ConnAck(_)
+            | Packet::SubAck(_)
+            | Packet::UnsubAck(_)
+            | Packet::PingResponse(_) => {
+                let disconnect = Disconnect::new(Reason::ProtocolErr);
+                stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                Err(MqttCodecError::new("packet that a client must not send").into())
+            }
             _ => Ok(()),
         }
     }
-- 
2.43.0


From 25eb92587cdb740e0a7b3e58501b549935ab5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:50 +0000
Subject: [PATCH 81/88] fix: announce that shared subscriptions are not
 available, and refuse them

---
 vaux-broker/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b8f7de1..e188598 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -452,6 +452,10 @@ impl Broker {
                 suback.reason_codes.push(Reason::InvalidTopicFilter);
                 continue;
             }
+            if filter.filter.starts_with("$share/") {
+                suback.reason_codes.push(Reason::SharedSubUnsupported);
+                continue;
+            }
             let granted_qos = filter.qos();
             let subscriber = Subscriber {
                 session_id: session_id.into(),
@@ -604,6 +608,7 @@ impl Broker {
         let channel_size = state.config.session_channel_size;
 
         let has_active_session = session_pool.get_active(&session_id).is_some();
+        ack.shared_subscription_available = Some(false);
         if !has_active_session && session_pool.at_capacity(max_active) {
             drop(session_pool);
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
-- 
2.43.0


From 2613ebb918db40d809b9c96fad2175b20d873e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:09 +0000
Subject: [PATCH 82/88] fix: observe the message expiry interval of messages
 that wait in the broker

---
 vaux-broker/src/lib.rs     | 15 +++++++++++----
 vaux-broker/src/session.rs | 34 ++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e188598..8401b10 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -9,7 +9,7 @@ use session::{ControlReceiver, SessionControl};
 use session::SessionPool;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 use tokio::{
     net::TcpListener,
     select,
@@ -285,7 +285,14 @@ impl Broker {
                                 stream.shutdown().await?;
                                 return Ok(());
                             }
-                            SessionControl::Deliver(publish) => {
+                            SessionControl::Deliver(mut publish, received) => {
+                                if session::message_expired(&publish, received) {
+                                    if let (Some(client), Some(packet_id)) = (&client_session, publish.packet_id()) {
+                                        client.session.write().await.acknowledge(packet_id);
+                                    }
+                                    continue;
+                                }
+                                session::deduct_waiting_time(&mut publish, received);
                                 stream.write(&mut Packet::Publish(*publish)).await?;
                             }
                         }
@@ -840,7 +847,7 @@ impl Broker {
                     if !connected {
                         continue;
                     }
-                    if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
+                    if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out), Instant::now())) {
                         tracing::warn!(
                             session_id = %sub.session_id,
                             topic = %publish.topic_name,
@@ -850,7 +857,7 @@ impl Broker {
                     }
                 } else {
                     let target = target_session.read().await;
-                    if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
+                    if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out), Instant::now())) {
                         tracing::warn!(
                             session_id = %sub.session_id,
                             topic = %publish.topic_name,
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 05d90df..c3b1731 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -202,7 +202,22 @@ impl SessionPool {
 #[derive(Debug)]
 pub(crate) enum SessionControl {
     Disconnect(Reason),
-    Deliver(Box<vaux_mqtt::Publish>),
+    /// A message, and the time when it was received.
+    Deliver(Box<vaux_mqtt::Publish>, Instant),
+}
+
+/// Returns true if the message expiry interval has passed since the message was received.
+pub(crate) fn message_expired(publish: &Publish, received: Instant) -> bool {
+    publish
+        .message_expiry
+        .is_some_and(|expiry| received.elapsed().as_secs() >= u64::from(expiry))
+}
+
+/// Deducts the time the message has been waiting from its message expiry interval.
+/// See MQTT 5.0 specification section 3.3.2.3.3.
+pub(crate) fn deduct_waiting_time(publish: &mut Publish, received: Instant) {
+    let waited = u32::try_from(received.elapsed().as_secs()).unwrap_or(u32::MAX);
+    publish.message_expiry = publish.message_expiry.map(|e| e.saturating_sub(waited));
 }
 
 #[derive(Debug)]
@@ -215,7 +230,7 @@ pub struct Session {
     will_message: Option<WillMessage>,
     pending_will: Option<(WillMessage, CancellationToken)>,
     next_packet_id: u16,
-    pending_ack: HashMap<u16, Publish>,
+    pending_ack: HashMap<u16, (Publish, Instant)>,
     connection: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
     disconnect: (UnboundedSender<Reason>, Option<UnboundedReceiver<Reason>>),
@@ -361,7 +376,7 @@ impl Session {
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-        self.pending_ack.insert(packet_id, publish);
+        self.pending_ack.insert(packet_id, (publish, Instant::now()));
     }
 
     pub fn acknowledge(&mut self, packet_id: u16) -> bool {
@@ -379,15 +394,22 @@ impl Session {
 
     /// Returns the messages that are still to be acknowledged, oldest first, to be sent. The
     /// messages keep their packet identifiers and remain pending until they are acknowledged;
-    /// from the second time on that they are sent they are duplicates.
+    /// from the second time on that they are sent they are duplicates. Messages that have
+    /// expired before they were sent once are discarded.
     pub fn pending(&mut self) -> Vec<(u16, Publish)> {
+        self.pending_ack
+            .retain(|_, (publish, received)| publish.dup() || !message_expired(publish, *received));
         let mut pending: Vec<(u16, Publish)> = self
             .pending_ack
             .iter()
-            .map(|(id, publish)| (*id, publish.clone()))
+            .map(|(id, (publish, received))| {
+                let mut publish = publish.clone();
+                deduct_waiting_time(&mut publish, *received);
+                (*id, publish)
+            })
             .collect();
         pending.sort_by_key(|(id, _)| id.wrapping_sub(self.next_packet_id));
-        for publish in self.pending_ack.values_mut() {
+        for (publish, _) in self.pending_ack.values_mut() {
             publish.set_dup(true).ok();
         }
         pending
-- 
2.43.0


From 264f5a94e6007f8acd70562b80cd6070af3a6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 83/88] fix: match topics of any depth without recursion

---
 vaux-broker/src/topic.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index 65e8883..c2cd4a5 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -126,7 +126,11 @@ impl TopicTree {
     pub fn matching_subscribers(&self, topic: &str) -> Vec<Subscriber> {
         let segments: Vec<&str> = topic.split('/').collect();
         let mut results = Vec::new();
-        self.collect_matches(ROOT_NODE, &segments, 0, &mut results);
+        // a topic may have more levels than there is stack for
+        let mut pending = vec![(ROOT_NODE, 0)];
+        while let Some((node_idx, depth)) = pending.pop() {
+            self.collect_matches(node_idx, &segments, depth, &mut results, &mut pending);
+        }
         results
     }
 
@@ -136,6 +140,7 @@ impl TopicTree {
         segments: &[&str],
         depth: usize,
         results: &mut Vec<Subscriber>,
+        pending: &mut Vec<(u32, usize)>,
     ) {
         let node = &self.nodes[node_idx as usize];
         // a filter starting with a wildcard does not match topics starting with '$'
@@ -159,7 +164,7 @@ impl TopicTree {
 
         // exact match on this segment
         if let Some(&child_idx) = node.children.get(segment) {
-            self.collect_matches(child_idx, segments, depth + 1, results);
+            pending.push((child_idx, depth + 1));
         }
 
         if skip_wildcards {
@@ -168,7 +173,7 @@ impl TopicTree {
 
         // '+' wildcard matches any single level
         if let Some(&plus_idx) = node.children.get("+") {
-            self.collect_matches(plus_idx, segments, depth + 1, results);
+            pending.push((plus_idx, depth + 1));
         }
 
         // '#' child matches this level and everything below
-- 
2.43.0


From 8364b2c91da97e121ebb53480aed10b6f9476e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:53 +0000
Subject: [PATCH 84/88] fix: a CONNECT that cannot be encoded is an error, not
 a panic

---
 vaux-client/src/session.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index fcbbda1..b744259 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -11,7 +11,6 @@ use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
 use vaux_mqtt::{
     ConnAck, Connect, Packet, QoSLevel, Reason,
-    codec::{CodecSize, Encode},
 };
 
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
@@ -252,10 +251,6 @@ impl ClientSession {
             connect.set_will_message(will);
         }
         let mut connect_packet = Packet::Connect(Box::new(connect));
-        if let Packet::Connect(ref mut boxed_connect) = connect_packet {
-            let mut dest = bytes::BytesMut::with_capacity(boxed_connect.codec_size() as usize);
-            boxed_connect.encode(&mut dest).unwrap();
-        }
 
         match self.packet_stream.write(&mut connect_packet).await {
             Ok(_) => {
-- 
2.43.0


From 676529eadd210dd9bf0974588ff226f3522d6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:53 +0000
Subject: [PATCH 85/88] fix: a message that cannot be encoded does not become
 part of the session

---
 vaux-client/src/session.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index b744259..9b0c571 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -11,6 +11,7 @@ use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
 use vaux_mqtt::{
     ConnAck, Connect, Packet, QoSLevel, Reason,
+    codec::Encode,
 };
 
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
@@ -371,6 +372,9 @@ impl ClientSession {
                             ErrorKind::Protocol(Reason::MalformedPacket),
                         ));
                     }
+                    // a message that cannot be sent must not become part of the session
+                    p.encode(&mut bytes::BytesMut::new())
+                        .map_err(|e| MqttError::new(&format!("{e}"), ErrorKind::Codec))?;
                     match p.qos() {
                         QoSLevel::AtLeastOnce => {
                             self.state.pending_qos_send.insert(
-- 
2.43.0


From dcce6e6612ea1047f987018ba4ba0a66d8d48358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:53 +0000
Subject: [PATCH 86/88] fix: a start that fails to connect can be repeated

---
 vaux-client/src/client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 071c63f..487b1e2 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -311,10 +311,6 @@ impl MqttClient {
         }
         let max_connect_wait = self.max_connect_wait;
         let will_message = self.will_message.clone();
-        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
-            "packet_in channel closed",
-            ErrorKind::Transport,
-        ))?;
         let packet_out = self.packet_out.0.clone();
         let credentials = self.connection.as_ref().unwrap().credentials().clone();
         let connected = self.connected.clone();
@@ -330,6 +326,11 @@ impl MqttClient {
                 }
             };
         }
+        // taken when connected, a start that fails to connect may be repeated
+        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
+            "packet_in channel closed",
+            ErrorKind::Transport,
+        ))?;
         let mut session = match ClientSession::new_from_client(self).await {
             Ok(s) => s,
             Err(e) => {
-- 
2.43.0


From 3d898568e0d7edf793c3a3e5b3ecae260fd31d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:53 +0000
Subject: [PATCH 87/88] fix: bound configured durations instead of truncating
 them

---
 vaux-broker/src/lib.rs     | 3 ++-
 vaux-broker/src/session.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 8401b10..ab2fba8 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -589,7 +589,8 @@ impl Broker {
             if requested_expiry > 0 {
                 let max_expiry: u32;
                 {
-                    max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
+                    let max = state.session_pool.read().await.session_expiry().as_secs();
+                    max_expiry = max.min(u64::from(u32::MAX)) as u32;
                 }
                 if requested_expiry > max_expiry {
                     ack.session_expiry_interval = Some(max_expiry);
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index c3b1731..a034764 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -39,11 +39,11 @@ impl SessionPool {
     }
 
     pub fn default_keep_alive_secs(&self) -> u16 {
-        self.default_keep_alive.as_secs() as u16
+        self.default_keep_alive.as_secs().min(u64::from(u16::MAX)) as u16
     }
 
     pub fn max_keep_alive_secs(&self) -> u16 {
-        self.max_keep_alive.as_secs() as u16
+        self.max_keep_alive.as_secs().min(u64::from(u16::MAX)) as u16
     }
 
     pub fn session_expiry(&self) -> Duration {
-- 
2.43.0


From b82e5eace4b25aa06b796747ed0c2affbe7af8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:47 +0000
Subject: [PATCH 88/88] fix: deliver a message with an expiry interval of zero
 to subscribers that can take it at once

---
 vaux-broker/src/session.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index a034764..75f94eb 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -207,10 +207,11 @@ pub(crate) enum SessionControl {
 }
 
 /// Returns true if the message expiry interval has passed since the message was received.
+/// A message with an interval of zero can still be delivered at once.
 pub(crate) fn message_expired(publish: &Publish, received: Instant) -> bool {
     publish
         .message_expiry
-        .is_some_and(|expiry| received.elapsed().as_secs() >= u64::from(expiry))
+        .is_some_and(|expiry| received.elapsed().as_secs() >= u64::from(expiry.max(1)))
 }
 
 /// Deducts the time the message has been waiting from its message expiry interval.
-- 
2.43.0

