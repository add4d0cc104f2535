From 0c4d2309de7a0ba1fb1f57ca79e7e420f15512a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 01/53] fix: pop the styles of a div once it has been traversed

A div pushed its referenced styles but never popped them, so they leaked to
the elements following it.
---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 4b1eb43..59af295 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -870,6 +870,7 @@ class div_type(ContentContainerMixin, IDMixin, RegionedElementMixin, LiveStyledE
     def _semantic_after_traversal(self, dataset, element_content=None, parent_binding=None):
         self._semantic_postprocess_timing(dataset=dataset, element_content=element_content)
         self._semantic_unset_region(dataset=dataset)
+        self._semantic_pop_styles(dataset=dataset)
 
     def _semantic_before_copy(self, dataset, element_content=None):
         self._assert_in_segment(dataset=dataset, element_content=element_content)
-- 
2.43.0


From fe5e31173a1b181c90d0760784e39eaeece05f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 02/53] fix: reinstate the enclosing region after a nested
 region reference

The region of a div was forgotten as soon as one of its descendants that
referenced a region of its own had been traversed.
---
 ebu_tt_live/bindings/validation/presentation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/presentation.py b/ebu_tt_live/bindings/validation/presentation.py
index 94711e4..14628f9 100644
--- a/ebu_tt_live/bindings/validation/presentation.py
+++ b/ebu_tt_live/bindings/validation/presentation.py
@@ -177,6 +177,8 @@ class RegionedElementMixin(object):
         if self.region is not None:
             try:
                 region = dataset['tt_element'].get_element_by_id(self.region, region_type)
+                # Remember the enclosing region so that it can be reinstated for the siblings of this element
+                dataset.setdefault('region_stack', []).append(dataset.get('region', None))
                 dataset['region'] = region
                 self._validated_region = region
             except LookupError:
@@ -186,7 +188,7 @@ class RegionedElementMixin(object):
 
     def _semantic_unset_region(self, dataset):
         if self.region is not None:
-            dataset['region'] = None
+            dataset['region'] = dataset['region_stack'].pop()
 
     def _semantic_copy_verify_referenced_region(self, dataset):
         orphans = dataset['orphaned_elements']
-- 
2.43.0


From 754bbf0f19b067fe90ff26156cf21693c55a6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 03/53] fix: report incompatible documents with
 IncompatibleSequenceError

The error message template has a named field, formatting it positionally
raised a KeyError instead of the intended error.
---
 ebu_tt_live/documents/ebutt3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index df11650..5d60a7a 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -642,12 +642,14 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         if self.sequence_identifier != document.sequence_identifier or \
                 self._reference_clock.time_base != document.time_base:
             raise IncompatibleSequenceError(
-                ERR_DOCUMENT_NOT_COMPATIBLE.format('ebuttp:sequenceIdentifier or ttp:timeBase')
+                ERR_DOCUMENT_NOT_COMPATIBLE.format(
+                    attr_names='ebuttp:sequenceIdentifier or ttp:timeBase'
+                )
             )
         if self._reference_clock.time_base == 'clock':
             if self._reference_clock.clock_mode != document.clock_mode:
                 raise IncompatibleSequenceError(
-                    ERR_DOCUMENT_NOT_COMPATIBLE.format('ttp:clockMode')
+                    ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ttp:clockMode')
                 )
         existing_document = None
         try:
-- 
2.43.0


From 69cfd5dc4d68ed2d28fc8d9f036396db3c550720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 04/53] fix: make the parsing context accessible from every
 thread

Outside of the thread importing the module creating a timing type raised
AttributeError unless that thread had parsed a document before.
---
 ebu_tt_live/bindings/pyxb_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index 2fcfba8..20c34a1 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -27,7 +27,8 @@ def get_xml_parsing_context():
     :return: None if not in parsing mode
     """
     log.debug('Accessing xml_parsing_context: {}'.format(__xml_parsing_context))
-    if __xml_parsing_context.parsing is False:
+    # The attribute is only initialised in the thread that imported this module.
+    if getattr(__xml_parsing_context, 'parsing', False) is False:
         # We are not in parsing mode
         return None
     return __xml_parsing_context.context
-- 
2.43.0


From ef2d56323120995994c591463b0826b427458eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 05/53] fix: keep multiRowAlign when a style is copied to a
 segment

---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 59af295..6021af0 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -124,6 +124,7 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             wrapOption=self.wrapOption,
             padding=self.padding,
             linePadding=self.linePadding,
+            multiRowAlign=self.multiRowAlign,
             _strict_keywords=False
         )
         return copied_style
-- 
2.43.0


From 4392cc0633d33c93999941e2967f1c88f9fbbb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 06/53] fix: keep xml:space when the root element is copied to
 a segment

---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 6021af0..d1cd1c4 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -461,6 +461,7 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
     def __copy__(self):
         copied_tt = tt_type(
             lang=self.lang,
+            space=self.space,
             extent=self.extent,
             timeBase=self.timeBase,
             frameRate=self.frameRate,
-- 
2.43.0


From 1aacc4990a052595d3e2505950b65b18cf7f2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 07/53] fix: keep the role of a line break when it is copied

---
 ebu_tt_live/bindings/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index d1cd1c4..0a7211f 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -817,7 +817,10 @@ raw.span_type._SetSupersedingClass(span_type)
 class br_type(SemanticValidationMixin, raw.br_type):
 
     def __copy__(self):
-        return br_type()
+        return br_type(
+            role=self.role,
+            _strict_keywords=False
+        )
 
     def content_to_string(self, begin=None, end=None):
         return '<br />'
-- 
2.43.0


From 3db7fc3d53faed58244b8f5b53e88c48f8aae3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 08/53] fix: carry body style, multiRowAlign and roles over to
 EBU-TT-D

The style of the body, multiRowAlign of styles and the role of div and br
elements were dropped by the conversion even though EBU-TT-D supports them.
---
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 39bfabc..3d99ad0 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -234,6 +234,7 @@ class EBUTT3EBUTTDConverter(object):
             wrapOption=style_in.wrapOption,
             padding=style_in.padding,
             linePadding=style_in.linePadding,
+            multiRowAlign=style_in.multiRowAlign,
             _strict_keywords=False
         )
         return new_elem
@@ -244,7 +245,8 @@ class EBUTT3EBUTTDConverter(object):
         new_elem = d_body_type(
             *self.convert_children(body_in, dataset),
             agent=body_in.agent,
-            role=body_in.role
+            role=body_in.role,
+            style=body_in.style
         )
         return new_elem
 
@@ -254,7 +256,8 @@ class EBUTT3EBUTTDConverter(object):
             id=div_in.id,
             region=div_in.region,
             style=div_in.style,
-            agent=div_in.agent
+            agent=div_in.agent,
+            role=div_in.role
         )
         return new_elem
 
@@ -288,7 +291,9 @@ class EBUTT3EBUTTDConverter(object):
         return new_elem
 
     def convert_br(self, br_in, dataset):
-        return d_br_type()
+        return d_br_type(
+            role=br_in.role
+        )
 
     def map_type(self, in_element):
         if isinstance(in_element, tt_type):
-- 
2.43.0


From e94b831a984332017afa641860be1e4a2d928c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 09/53] fix: retry the deletion of a file that could not be
 removed

os.remove signals failure with OSError, which used to kill the deletion
thread and leave every later file behind.
---
 ebu_tt_live/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/utils.py b/ebu_tt_live/utils.py
index 9ae3afc..d4732f4 100644
--- a/ebu_tt_live/utils.py
+++ b/ebu_tt_live/utils.py
@@ -140,7 +140,7 @@ class RotatingFileBuffer(RingBufferWithCallback):
                 # If not we do nothing. The loop discards the name
                 try:
                     os.remove(full_path)
-                except IOError:
+                except (IOError, OSError):
                     # Horrible! Quick, put it back... NEXT
                     failed_files.append(item)
 
-- 
2.43.0


From 518b3429003d992fce05679088a6ddc60ee70dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 10/53] fix: raise ConfigurationError for an unknown backend
 type

---
 ebu_tt_live/config/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index 465c459..c0f5923 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -276,7 +276,7 @@ backend_by_type = {
 
 def get_backend(backend_name):
     try:
-        return backend_by_type.get(backend_name)
+        return backend_by_type[backend_name]
     except KeyError:
         raise ConfigurationError(
             ERR_NO_SUCH_COMPONENT.format(
-- 
2.43.0


From da796354e7b764c5b8be82869a74f01bfb1a311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 11/53] fix: raise ConfigurationError for an unknown data
 adapter type

---
 ebu_tt_live/config/adapters.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/config/adapters.py b/ebu_tt_live/config/adapters.py
index 0ededb1..ea1a50e 100644
--- a/ebu_tt_live/config/adapters.py
+++ b/ebu_tt_live/config/adapters.py
@@ -1,6 +1,8 @@
 
 from .common import ConfigurableComponent
 from ebu_tt_live.adapters import document_data, node_carriage
+from ebu_tt_live.errors import ConfigurationError
+from ebu_tt_live.strings import ERR_NO_SUCH_COMPONENT
 
 
 data_adapters_by_directed_conversion = {
@@ -11,6 +13,17 @@ data_adapters_by_directed_conversion = {
 }
 
 
+def get_data_adapter(conv_type):
+    try:
+        return data_adapters_by_directed_conversion[conv_type]
+    except KeyError:
+        raise ConfigurationError(
+            ERR_NO_SUCH_COMPONENT.format(
+                type_name=conv_type
+            )
+        )
+
+
 def parse_adapter_list(value):
     # This is working around a bug that configman leaves the lists intact
     parsed_value = []
@@ -18,7 +31,7 @@ def parse_adapter_list(value):
         for item in value:
             conv_type = item['type']
             kwargs = {ckey: carg for ckey, carg in item.items() if ckey != 'type'}
-            parsed_value.append(data_adapters_by_directed_conversion.get(conv_type)(**kwargs))
+            parsed_value.append(get_data_adapter(conv_type)(**kwargs))
     return parsed_value or None
 
 
-- 
2.43.0


From 325fe2fef565062a492b0b9523733762e7585302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 12/53] fix: return the configured producer adapter

---
 ebu_tt_live/config/adapters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebu_tt_live/config/adapters.py b/ebu_tt_live/config/adapters.py
index ea1a50e..e250887 100644
--- a/ebu_tt_live/config/adapters.py
+++ b/ebu_tt_live/config/adapters.py
@@ -47,6 +47,8 @@ class ProducerNodeCarriageAdapter(ConfigurableComponent):
             data_adapters=adapter_list
         )
 
+        return instance
+
 
 class ConsumerNodeCarriageAdapter(ConfigurableComponent):
 
-- 
2.43.0


From aa62adab32db4d2740e262e04b0bc5da32abe05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 13/53] fix: survive the loss of a rejected websocket
 connection

A connection dropped for lack of a producer or consumer made the server
factory raise AttributeError when it was finally lost.
---
 ebu_tt_live/twisted/websocket.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 6abab4f..a9d0756 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -325,9 +325,9 @@ class BroadcastServerFactory(BroadcastFactoryCommon, WebSocketServerFactory):
                 self.consumer.register(client)
 
     def unregister(self, client):
-        if client.action == 'subscribe':
+        if client.action == 'subscribe' and self._producer:
             self._producer.unregister(client)
-        if client.action == 'publish':
+        if client.action == 'publish' and self._consumer:
             self._consumer.unregister(client)
 
     def stopFactory(self):
-- 
2.43.0


From 813664ccd1d38bf8917956e3b7ad8e15f408ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 14/53] fix: keep the availability time of received live
 messages

---
 ebu_tt_live/documents/ebutt3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 5d60a7a..37d0411 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -251,8 +251,9 @@ class EBUTTAuthorsGroupControlRequest(EBUTTLiveMessage):
             sequence_identifier=binding.sequenceIdentifier,
             sender=binding.header.sender,
             recipient=binding.header.recipient,
-            payload=binding.payload.orderedContent()[0].value  # anyType is considered complex type
+            payload=binding.payload.orderedContent()[0].value,  # anyType is considered complex type
             # so orderedContent is needed and indexing the first component.
+            availability_time=availability_time
         )
 
 # Register the class in the base class
-- 
2.43.0


From fa76d3d866a2687b85e8620f65027c0fa7b0388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 15/53] fix: convert the binding of the document in the
 EBU-TT-D adapter

The converter operates on bindings, handing it the document itself produced
an empty EBU-TT-D document.
---
 ebu_tt_live/adapters/document_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index b237ba8..e90ee06 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -106,7 +106,7 @@ class EBUTT3toEBUTTDAdapter(IDocumentDataAdapter):
         self._converter = EBUTT3EBUTTDConverter(media_clock=media_clock)
 
     def convert_data(self, data, **kwargs):
-        return EBUTTDDocument.create_from_raw_binding(self._converter.convert_document(data)), kwargs
+        return EBUTTDDocument.create_from_raw_binding(self._converter.convert_document(data.binding)), kwargs
 
 
 def get_document_data_adapter(expects, provides):
-- 
2.43.0


From e73313dfd83d89126dfec294c69850c4c93d31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 16/53] fix: do not forward the received XML along with a
 modified document

A distributor connected to a node that modifies documents sent out the XML
as it was received by that node, undoing the modifications.
---
 ebu_tt_live/node/deduplicator.py | 4 ++--
 ebu_tt_live/node/delay.py        | 6 +++++-
 ebu_tt_live/node/encoder.py      | 3 ++-
 ebu_tt_live/node/handover.py     | 3 ++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index e58364a..22e9c5c 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -31,7 +31,8 @@ class DeDuplicatorNode(AbstractCombinedNode):
         )
         self._sequence_identifier = sequence_identifier
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
+        # raw_xml describes the received document and not the one emitted so it is not passed on
         if self.is_document(document):
 
             if document.sequence_identifier == self._sequence_identifier:
@@ -55,7 +56,6 @@ class DeDuplicatorNode(AbstractCombinedNode):
 
         if document.binding.head.styling is not None:
             styles = document.binding.head.styling.style
-            print styles
             document.binding.head.styling.style = None
 
             self.CollateUniqueVals(styles, old_id_dict, new_id_dict, hash_dict)
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index c873e93..fe23cc3 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -30,7 +30,8 @@ class RetimingDelayNode(AbstractCombinedNode):
         self._fixed_delay = fixed_delay
         self._document_sequence = document_sequence
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
+        # raw_xml describes the received document and not the one emitted so it is not passed on
         if self.is_document(document):
 
             if document.sequence_identifier == self._document_sequence:
@@ -76,6 +77,9 @@ class RetimingDelayNode(AbstractCombinedNode):
                     )
                 )
         else:
+            # Live messages are forwarded unmodified
+            if raw_xml is not None:
+                kwargs['raw_xml'] = raw_xml
             self.producer_carriage.emit_data(data=document, **kwargs)
 
 
diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index 5091771..d01fad7 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -32,7 +32,8 @@ class EBUTTDEncoder(AbstractCombinedNode):
         self._default_ebuttd_doc.set_implicit_ns(self._default_ns)
         self._default_ebuttd_doc.validate()
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
+        # raw_xml describes the received document and not the one emitted so it is not passed on
         # Convert each received document into EBU-TT-D
         if self.is_document(document):
             self.limit_sequence_to_one(document)
diff --git a/ebu_tt_live/node/handover.py b/ebu_tt_live/node/handover.py
index 33bfdf0..5fa5a53 100644
--- a/ebu_tt_live/node/handover.py
+++ b/ebu_tt_live/node/handover.py
@@ -32,7 +32,7 @@ class HandoverNode(SwitcherNode):
         self._last_sequence_number = 0
         self._known_sequences = {}
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
         """
         The specified functionality is met by keeping the following priorities in mind when processing an
         incoming document:
@@ -57,6 +57,7 @@ class HandoverNode(SwitcherNode):
 
 
         :param document:
+        :param raw_xml: Describes the received document and not the one emitted so it is not passed on
         :param kwargs:
 
         """
-- 
2.43.0


From 25f3b5e0c52976e542680acdcaf0af39ac8e929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 17/53] fix: let the encoder process documents that come with
 sequence details

A distributor hands the time base and the sequence identifier down with its
data, receiving them made the encoder raise TypeError.
---
 ebu_tt_live/node/encoder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index d01fad7..f897dd5 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -46,4 +46,8 @@ class EBUTTDEncoder(AbstractCombinedNode):
             # Hard coded to 'media' because that's all that's permitted in EBU-TT-D. Alternative
             # would be to extract it from the EBUTTDDocument but since it's the only permitted
             # value that would be an unnecessary overhead...
-            self.producer_carriage.emit_data(data=converted_doc, sequence_identifier='default', time_base='media', **kwargs)
+            kwargs.update(dict(
+                sequence_identifier='default',
+                time_base='media'
+            ))
+            self.producer_carriage.emit_data(data=converted_doc, **kwargs)
-- 
2.43.0


From 37bb02bc149ac9cc51438f0bcec5052d9133a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 18/53] fix: write a manifest for every sequence

All documents ended up in the manifest of the first sequence.
---
 ebu_tt_live/carriage/filesystem.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index ef4db44..80d7aea 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -189,11 +189,10 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
                 availability_time += timedelta(seconds=delay)
 
             # Open the manifest filepath
-            if self._manifest_path is None :
-                manifest_filename = CFG_MANIFEST_FILENAME_PATTERN.format(
-                    sequence_identifier=sequence_identifier)
-                self._manifest_path = os.path.join(self._dirpath, manifest_filename)
-                
+            manifest_filename = CFG_MANIFEST_FILENAME_PATTERN.format(
+                sequence_identifier=sequence_identifier)
+            self._manifest_path = os.path.join(self._dirpath, manifest_filename)
+
             # Write a new line to the manifest file
             new_manifest_line = CFG_MANIFEST_LINE_PATTERN.format(
                 availability_time=timedelta_to_str_manifest(availability_time), 
-- 
2.43.0


From c6e1fd86d16f963bd359ae6a77077ab94d7b747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 19/53] fix: write documents with non-ASCII content to the file
 system

---
 ebu_tt_live/carriage/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index 80d7aea..787e676 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -154,7 +154,7 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
         # if statements.
         filepath = os.path.join(self._dirpath, filename)
         with open(filepath, 'w') as destfile:
-            destfile.write(data)
+            destfile.write(data.encode('utf-8') if isinstance(data, six.text_type) else data)
             destfile.flush()
                         
         # If we're running a rotating buffer remember this file for possible deletion later
-- 
2.43.0


From 83e46cd094fc5857c9c11256c942dcd5ae2d7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 20/53] fix: distribute already encoded documents with
 non-ASCII content

---
 ebu_tt_live/twisted/websocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index a9d0756..ccf4286 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -174,7 +174,7 @@ class TwistedWSPushProducer(object):
         for conn in self._connections:
             conn.sendSequenceMessage(
                 sequence_identifier=sequence_identifier,
-                payload=data.encode("utf-8")
+                payload=data.encode("utf-8") if isinstance(data, six.text_type) else data
             )
 
     def resumeProducing(self):
-- 
2.43.0


From 6a041ce0477a772b2da92215b91dfb331979900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 21/53] fix: trim an open-ended document that is delivered out
 of order

Comparing its unspecified end with the begin time of the next document
raised TypeError.
---
 ebu_tt_live/documents/ebutt3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 37d0411..3ab3b54 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -777,7 +777,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     raise SequenceOverridden()
                 if item.element.sequence_number > document.sequence_number:
                     # This means our document may get trimmed into shape
-                    if this_ends.when > item.when:
+                    if this_ends.when is None or this_ends.when > item.when:
                         trims_this = item
                     break
 
-- 
2.43.0


From 948e07b0d77f25e1bbe25e7c99a8a196f95d58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 22/53] fix: an open-ended document is not discarded

Comparing its unspecified end with its begin time raised TypeError.
---
 ebu_tt_live/documents/ebutt3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 3ab3b54..aa61a27 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -443,7 +443,8 @@ class EBUTT3Document(TimelineUtilMixin, SubtitleDocument, EBUTT3ObjectBase):
 
     @property
     def discarded(self):
-        return self.resolved_begin_time >= self.resolved_end_time
+        resolved_end_time = self.resolved_end_time
+        return resolved_end_time is not None and self.resolved_begin_time >= resolved_end_time
 
     def content_to_string(self, begin=None, end=None):
         """
-- 
2.43.0


From d79ab4e5863e96a264311cf85eec0a68e2d5c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 23/53] fix: close the connection when data arrives at a
 publishing client

That is what the documentation of the carriage mechanism says and what the
server does.
---
 ebu_tt_live/twisted/websocket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index ccf4286..237fb28 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -364,6 +364,7 @@ class BroadcastClientProtocol(EBUWebsocketProtocolMixin, WebSocketClientProtocol
                 self.dropConnection(abort=False)
         else:
             log.error(ERR_WS_RECEIVE_VIA_PRODUCER)
+            self.dropConnection(abort=True)
 
     def sendSequenceMessage(
             self, sequence_identifier, payload, isBinary=False, fragmentSize=None, sync=False, doNotCompress=False
-- 
2.43.0


From 8e46eb74fc833db6af1eb8db08b496de5a6305af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 24/53] fix: keep the style references of styles when
 deduplicating

The references were replaced by None before the new styles were known.
---
 ebu_tt_live/node/deduplicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 22e9c5c..f433ef9 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -88,7 +88,10 @@ class DeDuplicatorNode(AbstractCombinedNode):
                     old_id_ref = old_id_dict.get(value.style[old_id_index])
                     new_id_ref = new_id_dict.get(old_id_ref)
 
-                    value.style[old_id_index] = new_id_ref
+                    # Styles referenced by other styles are only known when all of them have been collected. Those
+                    # references are replaced along with the ones in the body.
+                    if new_id_ref is not None:
+                        value.style[old_id_index] = new_id_ref
 
             #deduplicating elements
             if value is not None:
-- 
2.43.0


From a71b9324c90891075612c26a632fde2382017b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 25/53] fix: remove repeated style references reliably

The indices of the references to remove were not kept up to date. Depending
on the order of the references the wrong one was removed or IndexError was
raised.
---
 ebu_tt_live/node/deduplicator.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index f433ef9..9f49f67 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -196,19 +196,16 @@ class ReplaceStylesAndRegions(RecursiveOperation):
         # style attributes on other elements, so we have to avoid getting confused by them
         if hasattr(value, 'style') and value.style is not None and not \
         isinstance(value, bindings.styling):
-            id_to_index_dict = dict()
-            # Stepping backwards to preserve hierarchy of style attributes
-            for old_id_index in range(len(value.style)-1, -1, -1):
-                old_id_ref = self.old_id_dict.get(value.style[old_id_index])
-                new_id_ref = self.new_id_dict.get(old_id_ref)
+            new_id_refs = []
+            # The first reference counts to preserve hierarchy of style attributes
+            for old_id in value.style:
+                new_id_ref = self.new_id_dict.get(self.old_id_dict.get(old_id))
 
-                # Next two lines remove in-line style duplication
-                if new_id_ref in id_to_index_dict:
-                    del value.style[id_to_index_dict[new_id_ref]]
+                # This removes in-line style duplication
+                if new_id_ref not in new_id_refs:
+                    new_id_refs.append(new_id_ref)
 
-                id_to_index_dict[new_id_ref] = old_id_index
-
-                value.style[old_id_index] = new_id_ref
+            value.style = new_id_refs
         else:
             pass
 
-- 
2.43.0


From f41681f13742da2b9570ed289da31e1c2b60a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 26/53] fix: never merge styles or regions that differ

Elements were considered identical if the hash values of their attributes
matched.
---
 ebu_tt_live/node/deduplicator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 9f49f67..20a8d0e 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -129,7 +129,7 @@ def ReplaceNone(attr_value):
 
 class ComparableElement:
     """
-    Takes all the attributes of an element and returns a hash value
+    Takes all the attributes of an element and makes them comparable
     """
     def __init__(self, value):
         self.value = value
@@ -145,7 +145,7 @@ class ComparableElement:
         concatenatedStyleString = u''
         for key,val in sortedDict:
             styleValue = ReplaceNone(val.value(value))
-            concatenatedStyleString += str(styleValue) + '%'
+            concatenatedStyleString += u'{}%'.format(styleValue)
 
         for key,val in value.wildcardAttributeMap().items():
             namespace = ReplaceNone(key.namespaceURI())
@@ -153,7 +153,8 @@ class ComparableElement:
             wildcardValue = ReplaceNone(val)
             concatenatedStyleString += namespace + '%' + localName + '%' + wildcardValue
 
-        self.my_hash = hash(concatenatedStyleString)
+        # Different elements may share a hash value so it can't stand in for their attributes
+        self.my_hash = concatenatedStyleString
 
     def __eq__(self, other):
         return other and self.my_hash == other.my_hash
@@ -162,7 +163,7 @@ class ComparableElement:
         return not self.__eq__(other)
 
     def __hash__(self):
-        return self.my_hash
+        return hash(self.my_hash)
 
 
 class ReplaceStylesAndRegions(RecursiveOperation):
-- 
2.43.0


From cd3a3a0784dda57cb6e908480312eecfb7f4d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 27/53] fix: add up the delays of consecutive buffer delay
 nodes

Receiving a delay from upstream raised TypeError.
---
 ebu_tt_live/node/delay.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index fe23cc3..ede477c 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -97,9 +97,12 @@ class BufferDelayNode(AbstractCombinedNode):
         )
         self._fixed_delay = fixed_delay
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, delay=None, **kwargs):
 
-        self.producer_carriage.emit_data(data=document, delay=self._fixed_delay, **kwargs)
+        # Buffer delay nodes may follow each other
+        if delay is None:
+            delay = 0
+        self.producer_carriage.emit_data(data=document, delay=delay + self._fixed_delay, **kwargs)
 
 
 def update_children_timing(element, timebase, delay_int):
-- 
2.43.0


From 793e992c4adb5f141415ebc32ca2ada341dbf917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 28/53] fix: distinguish a time of zero from a missing one

An explicit begin, end or dur of zero was treated as if it had not been
specified.
---
 ebu_tt_live/bindings/validation/timing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index a966554..40741e3 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -36,8 +36,8 @@ class TimingValidationMixin(object):
             context.pop('timing_attribute_name', None)
 
     def _pre_init_variables(self, dataset, element_content):
-        self._begin_timedelta = self.begin and self.begin.timedelta or None
-        self._end_timedelta = self.end and self.end.timedelta or None
+        self._begin_timedelta = self.begin.timedelta if self.begin is not None else None
+        self._end_timedelta = self.end.timedelta if self.end is not None else None
         # We make sure end time is always none at the beginning because it can cause a LogicError with a stale value
         self._computed_begin_time = None
         self._computed_end_time = None
@@ -321,7 +321,7 @@ class BodyTimingValidationMixin(TimingValidationMixin):
 
     def _pre_init_variables(self, dataset, element_content):
         super(BodyTimingValidationMixin, self)._pre_init_variables(dataset, element_content)
-        self._dur_timedelta = self.dur and self.dur.timedelta or None
+        self._dur_timedelta = self.dur.timedelta if self.dur is not None else None
 
     def _post_cleanup_variables(self):
         del self._dur_timedelta
-- 
2.43.0


From c7b9db60417ff6ede8b9a5f4a041d7c7f505e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 29/53] fix: allow open ended content in segments without an
 end

---
 ebu_tt_live/bindings/validation/timing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index 40741e3..343eddc 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -309,7 +309,11 @@ class TimingValidationMixin(object):
 
             # Create compatible timing types
             copied_instance.begin = tt_elem.get_timing_type(trimmed_begin)
-            copied_instance.end = tt_elem.get_timing_type(trimmed_end)
+            if trimmed_end is not None:
+                copied_instance.end = tt_elem.get_timing_type(trimmed_end)
+            else:
+                # Open ended content in an open ended segment
+                copied_instance.end = None
 
 
 class BodyTimingValidationMixin(TimingValidationMixin):
-- 
2.43.0


From e3fc4d402ef4193de8a1ec73d5c1ee94c94214b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 30/53] fix: segment documents without styling or layout

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 3b948ea..1e87e2d 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -154,10 +154,14 @@ class EBUTT3Segmenter(RecursiveOperation):
             if isinstance(item, region_type):
                 self._segment.head.layout.region.remove(self._semantic_dataset['instance_mapping'][item])
 
-        if len(self._segment.head.styling.style) == 0:
-            self._segment.head.styling = None
-        if len(self._segment.head.layout.region) == 0:
-            self._segment.head.layout.region = None
+        # The head section and both of its containers are optional
+        head = self._segment.head
+        if head is None:
+            return
+        if head.styling is not None and len(head.styling.style) == 0:
+            head.styling = None
+        if head.layout is not None and len(head.layout.region) == 0:
+            head.layout.region = None
 
     def compute_document_segment(self):
         # Init
-- 
2.43.0


From b66591087eee6a41d45f411919ba64d187744807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 31/53] fix: extract a segment when there is no body in it

---
 ebu_tt_live/bindings/__init__.py             |  3 ++-
 ebu_tt_live/documents/ebutt3_segmentation.py | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 0a7211f..54ac140 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -977,7 +977,8 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
         ids = dataset['ids']
 
         self._merge_deconflict_ids(element=self, dest=merged_body, ids=ids)
-        self._merge_deconflict_ids(element=other_elem, dest=merged_body, ids=ids)
+        if other_elem is not None:
+            self._merge_deconflict_ids(element=other_elem, dest=merged_body, ids=ids)
 
         return merged_body
 
diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 1e87e2d..8f1225e 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -208,6 +208,10 @@ class EBUTT3Segmenter(RecursiveOperation):
         self._instance_mapping = dataset.pop('instance_mapping')
 
         # Empty document edge-case
-        if len(self._segment.body.orderedContent()) == 0:
-            self._segment.body.begin = self._convert_time(self.begin)
-            self._segment.body.end = self._convert_time(self.end)
+        # NOTE: There is no body in the segment if the document has none or if it is outside the requested range.
+        body = self._segment.body
+        if body is not None and len(body.orderedContent()) == 0:
+            if self.begin is not None:
+                body.begin = self._convert_time(self.begin)
+            if self.end is not None:
+                body.end = self._convert_time(self.end)
-- 
2.43.0


From 802cb79424d53fd3ed48a19815b23a6259846b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 32/53] fix: compare the times of an element, not their
 notation

---
 ebu_tt_live/bindings/validation/timing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index 343eddc..9046b20 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -44,9 +44,10 @@ class TimingValidationMixin(object):
         self._semantic_dataset = dataset
 
     def _element_badly_timed(self, value, element):
+        # The attribute values are strings so their order is not the order of the times they stand for.
         return (element.begin is not None and \
                 element.end is not None and \
-                element.end <= element.begin)
+                element.end.timedelta <= element.begin.timedelta)
         
     def _post_cleanup_variables(self):
         del self._semantic_dataset
-- 
2.43.0


From 9dfb6580a1c56e1167bfd2ff292b295046f8debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 33/53] fix: extend the duration of the body when its content
 is delayed

---
 ebu_tt_live/node/delay.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index ede477c..6767397 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -123,6 +123,16 @@ def update_children_timing(element, timebase, delay_int):
                     delay = FullClockTimingType(timedelta(seconds=delay_int))
                     child.value.end = FullClockTimingType(child.value.end.timedelta + delay.timedelta)
 
+            # without a begin time the duration is counted from the availability time, which is not delayed
+            if getattr(child.value, 'dur', None) is not None and child.value.begin is None:
+
+                if timebase == 'clock':
+                    delay = LimitedClockTimingType(timedelta(seconds=delay_int))
+                    child.value.dur = LimitedClockTimingType(child.value.dur.timedelta + delay.timedelta)
+                elif timebase == 'media':
+                    delay = FullClockTimingType(timedelta(seconds=delay_int))
+                    child.value.dur = FullClockTimingType(child.value.dur.timedelta + delay.timedelta)
+
             if hasattr(child.value, 'begin') and child.value.begin != None:
 
                 if timebase == 'clock':
-- 
2.43.0


From 8f347d8d5d2a811659a813d69ac4d92c5c43501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 34/53] fix: documents delivered out of order could end twice
 or be refused

Resolving the timeline took the first end event after a begin for the one of
the active document and refused two ends in a row, although a trimmed end and
the begin trimming it may be found in any order and later documents may end
first.
---
 ebu_tt_live/documents/ebutt3.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index aa61a27..6fe7a23 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -736,12 +736,11 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         this_ends = TimingEventEnd(document)
         # The one this document might trim
         begins_before = None
-        # The one this document definitely trims
-        ends_after = None
         # The one that will trim this document. One with a higher seq number
         trims_this = None
 
-        _end_found = False
+        # The ones that end before this document begins
+        ended = set()
         for item in self.timeline.irange(
             maximum=this_begins,
             reverse=True
@@ -756,24 +755,18 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                 raise discarderror
 
             if isinstance(item, TimingEventBegin):
-                if not _end_found or _end_found.element != item.element:
+                if item.element not in ended:
                     # This will be trimmed
                     begins_before = item
                 # Once a begin event is found we quit
                 break
             elif isinstance(item, TimingEventEnd):
-                if _end_found:
-                    raise ValueError(ERR_DOCUMENT_SEQUENCE_INCONSISTENCY)
-                _end_found = item
+                # The end of a trimmed document may be found next to the begin of the one trimming it in any order
+                ended.add(item.element)
 
         for item in self.timeline.irange(this_begins):
             # This loop goes forward looking at offending events
-            if isinstance(item, TimingEventEnd):
-                ends_after = item
-                if begins_before and ends_after.element != begins_before.element and ends_after.when != begins_before.when:
-                    raise ValueError(ERR_DOCUMENT_SEQUENCE_INCONSISTENCY)
-
-            elif isinstance(item, TimingEventBegin):
+            if isinstance(item, TimingEventBegin):
                 if document.sequence_number > item.element.sequence_number:
                     raise SequenceOverridden()
                 if item.element.sequence_number > document.sequence_number:
@@ -793,6 +786,11 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             ))
         if begins_before:
             # Move up previous document's end R17
+            ends_after = None
+            for item in self.timeline.irange(begins_before):
+                if isinstance(item, TimingEventEnd) and item.element == begins_before.element:
+                    ends_after = item
+                    break
             if ends_after:
                 self.timeline.remove(ends_after)
             else:
-- 
2.43.0


From 32b4662f20cfb13d90127687d13ce9c5517479cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 35/53] fix: documents of a sequence were looked up by position
 instead of number

---
 ebu_tt_live/documents/ebutt3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 6fe7a23..b946ba2 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -919,7 +919,11 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             self._last_sequence_number = document.sequence_number
 
     def get_document(self, seq_id):
-        return self._documents[seq_id]
+        # The documents are sorted by sequence number, which is not their position.
+        position = self._documents.bisect_key_left(seq_id)
+        if position == len(self._documents) or self._documents[position].sequence_number != seq_id:
+            raise KeyError(seq_id)
+        return self._documents[position]
 
     def _find_resolved_begin_event(self, document):
         if document not in self._documents:
-- 
2.43.0


From ff0328f9c45ec65d2bd097fc7d8995e012d9fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 36/53] fix: documents with styles or regions only containers
 refer to could not be segmented

Containers are copied before it is known whether any content of theirs is in
the segment, so the styles and regions they reference have to be copied, too;
the unreferenced ones are pruned afterwards.
---
 ebu_tt_live/documents/ebutt3_segmentation.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 8f1225e..d673065 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -2,6 +2,7 @@
 from datetime import timedelta
 import logging
 import copy
+from pyxb.binding.basis import ElementContent
 from ebu_tt_live.bindings.validation.base import SemanticValidationMixin, IDMixin
 from ebu_tt_live.bindings.pyxb_utils import RecursiveOperation
 from ebu_tt_live.bindings.validation.presentation import StyledElementMixin
@@ -163,6 +164,19 @@ class EBUTT3Segmenter(RecursiveOperation):
         if head.layout is not None and len(head.layout.region) == 0:
             head.layout.region = None
 
+    def _styled_elements(self, element):
+        """
+        The element and all the elements under it that may reference styles and regions.
+        :return: list
+        """
+        if element is None:
+            return []
+        output = [element]
+        for item in element.orderedContent():
+            if isinstance(item, ElementContent) and isinstance(item.value, StyledElementMixin):
+                output.extend(self._styled_elements(item.value))
+        return output
+
     def compute_document_segment(self):
         # Init
         # Make sure it is validated
@@ -176,10 +190,8 @@ class EBUTT3Segmenter(RecursiveOperation):
         affected_elements.add(self.document.binding.body)
         orphaned_elements = set()
 
-        for item in [
-            elem for elem in affected_elements
-            if isinstance(elem, StyledElementMixin)
-        ]:
+        # The containers are copied before it is known if any of their content is, so they need their references, too.
+        for item in self._styled_elements(self.document.binding.body):
             # Styles and regions are meant to be preserved. We put in everything that is likely to be needed
             # NOTE: There is a possibility that after copying some containers stay empty so they get removed from the
             # copy . In that case the unreferenced elements will be removed from the head.
-- 
2.43.0


From 8cbb916cac2234221b742a301cdf70ef2ad6e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 37/53] fix: elements of the same font size shared one
 converted line height

---
 .../bindings/converters/ebutt3_ebuttd.py      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 3d99ad0..c690c91 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -40,14 +40,18 @@ class EBUTT3EBUTTDConverter(object):
     def _adjusted_font_style_map(self):
         return self._semantic_dataset.setdefault(self._dataset_key_for_font_styles, {})
 
-    def _get_font_size_style(self, vertical, dataset, horizontal=None):
+    def _get_font_size_style(self, vertical, dataset, horizontal=None, line_height=None):
         """
         This function either points us to an already generated version of this style or creates it on demand.
         :param vertical:
         :param horizontal:
+        :param line_height: line height in percent of the font size
         :return:
         """
         font_style_id = self._font_size_style_template.format(horizontal, vertical)
+        if line_height is not None:
+            # The same font size may come with different line heights.
+            font_style_id = '{}_{}'.format(font_style_id, line_height)
         adjusted_font_style_map = self._adjusted_font_style_map()
         if font_style_id in adjusted_font_style_map:
             instance = adjusted_font_style_map[font_style_id]
@@ -63,6 +67,9 @@ class EBUTT3EBUTTDConverter(object):
                 fontSize=ebuttdt.PercentageFontSizeType(horizontal, vertical)
             )
 
+        if line_height is not None:
+            instance.lineHeight = ebuttdt.PercentageLineHeightType(line_height)
+
         adjusted_font_style_map[font_style_id] = instance
 
         return instance
@@ -82,6 +89,9 @@ class EBUTT3EBUTTDConverter(object):
         if isinstance(elem, (p_type, span_type)):
             computed_font_size = elem.computed_style.fontSize
             computed_line_height = elem.computed_style.lineHeight
+            relative_line_height = None
+            if isinstance(computed_line_height, ebuttdt.CellLineHeightType):
+                relative_line_height = computed_line_height.vertical / computed_font_size.vertical * 100
 
             if isinstance(elem, p_type):
                 # Since we eliminated all our fontSize attributes from the original styles here it is
@@ -93,7 +103,8 @@ class EBUTT3EBUTTDConverter(object):
                     relative_font_size = computed_font_size / default_font_size
                     adjusted_style = self._get_font_size_style(
                         vertical=relative_font_size.vertical,
-                        dataset=dataset
+                        dataset=dataset,
+                        line_height=relative_line_height
                     )
 
             elif isinstance(elem, span_type):
@@ -104,13 +115,10 @@ class EBUTT3EBUTTDConverter(object):
                     relative_font_size = computed_font_size / parent_computed_font_size
                     adjusted_style = self._get_font_size_style(
                         vertical=relative_font_size.vertical,
-                        dataset=dataset
+                        dataset=dataset,
+                        line_height=relative_line_height
                     )
 
-            if isinstance(computed_line_height, ebuttdt.CellLineHeightType):
-                adjusted_style.lineHeight = ebuttdt.PercentageLineHeightType(
-                    computed_line_height.vertical / computed_font_size.vertical * 100
-                )
             if celem.style is None:
                 celem.style = [
                     adjusted_style.id
-- 
2.43.0


From 265eead09637f765241c112b7da1146857121a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 38/53] fix: the encoder ignored the default namespace option
 for the documents it emits

---
 ebu_tt_live/node/encoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index f897dd5..7cbf774 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -42,6 +42,7 @@ class EBUTTDEncoder(AbstractCombinedNode):
             converted_doc = EBUTTDDocument.create_from_raw_binding(
                 self._ebuttd_converter.convert_document(document.binding)
             )
+            converted_doc.set_implicit_ns(self._default_ns)
             # Specify the time_base since the FilesystemProducerImpl can't derive it otherwise.
             # Hard coded to 'media' because that's all that's permitted in EBU-TT-D. Alternative
             # would be to extract it from the EBUTTDDocument but since it's the only permitted
-- 
2.43.0


From ec409d58704365c63b9a49ec62351b1ebd74e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 39/53] fix: use the configured proxy in the legacy websocket
 input

The proxy option was accepted and validated but never handed over to the
backend, which expected a string instead of the parsed address.
---
 ebu_tt_live/config/backend.py  | 3 +--
 ebu_tt_live/config/carriage.py | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index c0f5923..9d09131 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -238,8 +238,7 @@ class TwistedBackend(BackendBase):
     def wsl_backend_consumer(self, uri, custom_consumer, proxy=None):
         factory_args = {}
         if proxy:
-            proxyHost, proxyPort = proxy.split(':')
-            factory_args['proxy'] = {'host': proxyHost, 'port': int(proxyPort)}
+            factory_args['proxy'] = proxy
         factory = self._websocket.LegacyBroadcastClientFactory(
             url=uri.geturl(),
             consumer=self._wsl_twisted_consumer_type(
diff --git a/ebu_tt_live/config/carriage.py b/ebu_tt_live/config/carriage.py
index a4c92af..24f003e 100644
--- a/ebu_tt_live/config/carriage.py
+++ b/ebu_tt_live/config/carriage.py
@@ -180,7 +180,11 @@ class WebsocketLegacyInput(WebsocketLegacyBase):
         self.backend.register_component_start(self)
 
     def start(self):
-        self._backend_consumer = self.backend.wsl_backend_consumer(uri=self.config.uri, custom_consumer=self.component)
+        self._backend_consumer = self.backend.wsl_backend_consumer(
+            uri=self.config.uri,
+            custom_consumer=self.component,
+            proxy=self.config.proxy
+        )
 
 
 class WebsocketBase(ConfigurableComponent):
-- 
2.43.0


From 1f29f61cd38fad99c7e449bc766eefa163788e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 40/53] fix: refuse a second producer or consumer on the same
 websocket address

The component of the second output or input was silently ignored, although
the documentation of the cases calls for an error.
---
 ebu_tt_live/config/backend.py | 28 ++++++++++++++++++----------
 ebu_tt_live/strings.py        |  1 +
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index 9d09131..130e628 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -1,6 +1,6 @@
 import logging
 from .common import ConfigurableComponent, Namespace, RequiredConfig
-from ebu_tt_live.strings import ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH
+from ebu_tt_live.strings import ERR_CONF_WS_SERVER_ADDRESS_IN_USE, ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH
 from ebu_tt_live.errors import ConfigurationError
 from ebu_tt_live.strings import ERR_NO_SUCH_COMPONENT
 
@@ -168,11 +168,15 @@ class TwistedBackend(BackendBase):
         :return: The Twisted Producer instance with server socket and/or client connections
         """
         server_factory = listen and self._crosscheck_ws_server_uri(listen.geturl()) or None
-        twisted_producer = server_factory and server_factory.producer or None
-        if not twisted_producer:
-            twisted_producer = self._ws_twisted_producer_type(
-                custom_producer=custom_producer
+        if server_factory and server_factory.producer:
+            raise ConfigurationError(
+                ERR_CONF_WS_SERVER_ADDRESS_IN_USE.format(
+                    address=listen.geturl()
+                )
             )
+        twisted_producer = self._ws_twisted_producer_type(
+            custom_producer=custom_producer
+        )
 
         if listen:
             if server_factory:
@@ -194,13 +198,17 @@ class TwistedBackend(BackendBase):
 
     def ws_backend_consumer(self, custom_consumer, listen=None, connect=None, proxy=None):
         server_factory = listen and self._crosscheck_ws_server_uri(listen.geturl()) or None
-        twisted_consumer = server_factory and server_factory.consumer or None
-
-        if not twisted_consumer:
-            twisted_consumer = self._ws_twisted_consumer_type(
-                custom_consumer=custom_consumer
+        if server_factory and server_factory.consumer:
+            raise ConfigurationError(
+                ERR_CONF_WS_SERVER_ADDRESS_IN_USE.format(
+                    address=listen.geturl()
+                )
             )
 
+        twisted_consumer = self._ws_twisted_consumer_type(
+            custom_consumer=custom_consumer
+        )
+
         if listen:
             if server_factory:
                 server_factory.consumer = twisted_consumer
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index e2fb6c1..ec33518 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -42,6 +42,7 @@ ERR_WS_RECEIVE_VIA_PRODUCER = gettext('Producer socket cannot be used to receive
 ERR_CONF_ONE_BACKEND_ONLY = gettext('There is only one backend allowed. Already created: {backend1}, New: {backend2}')
 ERR_CONF_NO_SUCH_NODE = gettext('No such node type found: {node_type}')
 ERR_CONF_PROXY_CONF_VALUE = gettext('Failed to parse proxy config: {value}')
+ERR_CONF_WS_SERVER_ADDRESS_IN_USE = gettext('The address: {address} is in use by another component')
 ERR_CONF_WS_SERVER_PROTOCOL_MISMATCH = gettext('The address: {address} is in use by another server with different protocol version')
 
 DOC_SYNTACTIC_VALIDATION_SUCCESSFUL = gettext('Syntactic validation successful')
-- 
2.43.0


From 9469101fedd72a6a4796843104726127e944b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 41/53] fix: let the legacy websocket output start

The pull producer was created without its consumer and registered through a
method the carriage does not have. A second output on the address is refused.
---
 ebu_tt_live/config/backend.py    | 27 ++++++++++++++++-----------
 ebu_tt_live/twisted/websocket.py |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/ebu_tt_live/config/backend.py b/ebu_tt_live/config/backend.py
index 130e628..4a644f1 100644
--- a/ebu_tt_live/config/backend.py
+++ b/ebu_tt_live/config/backend.py
@@ -229,19 +229,24 @@ class TwistedBackend(BackendBase):
 
     def wsl_backend_producer(self, uri, custom_producer):
         server_factory = self._crosscheck_ws_server_uri(listen=uri.geturl(), legacy=True)
-        if not server_factory:
-            twisted_producer = self._wsl_twisted_producer_type(
-                custom_producer=custom_producer
-            )
-            server_factory = self._websocket.LegacyBroadcastServerFactory(
-                uri.geturl()
+        if server_factory:
+            raise ConfigurationError(
+                ERR_CONF_WS_SERVER_ADDRESS_IN_USE.format(
+                    address=uri.geturl()
+                )
             )
-            server_factory.protocol = self._websocket.LegacyBroadcastServerProtocol
-            server_factory.registerProducer(twisted_producer, streaming=True)
-            self._wsl_twisted_servers[uri.geturl()] = server_factory
-            server_factory.listen()
+        server_factory = self._websocket.LegacyBroadcastServerFactory(
+            uri.geturl()
+        )
+        server_factory.protocol = self._websocket.LegacyBroadcastServerProtocol
+        twisted_producer = self._wsl_twisted_producer_type(
+            consumer=server_factory,
+            custom_producer=custom_producer
+        )
+        self._wsl_twisted_servers[uri.geturl()] = server_factory
+        server_factory.listen()
 
-        return server_factory.producer
+        return twisted_producer
 
     def wsl_backend_consumer(self, uri, custom_consumer, proxy=None):
         factory_args = {}
diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 237fb28..edb8fe4 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -431,7 +431,7 @@ class TwistedPullProducer(object):
         self._custom_producer = custom_producer
         self._consumer = consumer
         self._consumer.registerProducer(self, False)
-        self._custom_producer.register_twisted_producer(self)
+        self._custom_producer.register_backend_producer(self)
 
     def emit_data(self, channel, data, delay=None):
         if delay is not None:
-- 
2.43.0


From 19f0a51f9efccd95d603424dee3e75e539b00b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 42/53] fix: find nodes by the name they are configured under

A node following a gap in the configured nodes could not be found.
---
 ebu_tt_live/config/__init__.py |  4 +---
 ebu_tt_live/config/node.py     | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/ebu_tt_live/config/__init__.py b/ebu_tt_live/config/__init__.py
index f5aebd6..66503d3 100644
--- a/ebu_tt_live/config/__init__.py
+++ b/ebu_tt_live/config/__init__.py
@@ -66,9 +66,7 @@ class AppConfig(RequiredConfig):
         current_app = self
 
     def get_node(self, node_id):
-        # TODO: This is horrible. Replace it with a dictionary
-        node_num = int(node_id.replace('node', ''))
-        return self._nodes._nodes[node_num - 1]
+        return self._nodes._nodes[node_id]
 
     def start(self):
 
diff --git a/ebu_tt_live/config/node.py b/ebu_tt_live/config/node.py
index ff335c2..47ce902 100644
--- a/ebu_tt_live/config/node.py
+++ b/ebu_tt_live/config/node.py
@@ -382,18 +382,18 @@ class UniversalNodeList(ConfigurableComponent):
     def configure_component(cls, config, local_config, **kwargs):
         instance = cls(config=config, local_config=local_config)
 
-        instance._nodes = []
-        for item in [
-            instance.config.node1,
-            instance.config.node2,
-            instance.config.node3,
-            instance.config.node4,
-            instance.config.node5,
-            instance.config.node6,
-            instance.config.node7
+        instance._nodes = {}
+        for node_id, item in [
+            ('node1', instance.config.node1),
+            ('node2', instance.config.node2),
+            ('node3', instance.config.node3),
+            ('node4', instance.config.node4),
+            ('node5', instance.config.node5),
+            ('node6', instance.config.node6),
+            ('node7', instance.config.node7)
         ]:
             if item.type is not None:
-                instance._nodes.append(item.type.configure_component(config, item))
+                instance._nodes[node_id] = item.type.configure_component(config, item)
 
         return instance
 
-- 
2.43.0


From 103dce876ba9a3b4837f90f53d3ed2cd35bf08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 43/53] fix: foreign attributes of styles are compared one by
 one when deduplicating

---
 ebu_tt_live/node/deduplicator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 20a8d0e..9b15765 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -139,22 +139,24 @@ class ComparableElement:
         attributeDict.pop(xml_id_attr) # This shouldn't throw an error, but if it does, something's wrong
 
         # sorted to make sure that for two elements with the same set of
-        # attributes the values are put into the hash string in the same order
+        # attributes the values are put into the hash in the same order
         sortedDict = sorted(attributeDict.items(), key=lambda t: t[0])
 
-        concatenatedStyleString = u''
+        # The values are kept apart because any separator may be a part of them
+        attributeValues = []
         for key,val in sortedDict:
             styleValue = ReplaceNone(val.value(value))
-            concatenatedStyleString += u'{}%'.format(styleValue)
+            attributeValues.append(u'{}'.format(styleValue))
 
+        wildcardValues = []
         for key,val in value.wildcardAttributeMap().items():
             namespace = ReplaceNone(key.namespaceURI())
             localName = key.localName()
             wildcardValue = ReplaceNone(val)
-            concatenatedStyleString += namespace + '%' + localName + '%' + wildcardValue
+            wildcardValues.append((namespace, localName, wildcardValue))
 
         # Different elements may share a hash value so it can't stand in for their attributes
-        self.my_hash = concatenatedStyleString
+        self.my_hash = tuple(attributeValues + sorted(wildcardValues))
 
     def __eq__(self, other):
         return other and self.my_hash == other.my_hash
-- 
2.43.0


From 1fe2512b0cf2370c890f629e609e8450623934fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 44/53] fix: a font size relative to a deferred one takes that
 of the region into account

---
 ebu_tt_live/bindings/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 54ac140..7248f41 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -224,6 +224,10 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             if isinstance(spec_font_size, ebuttdt.PercentageFontSizeType):
                 if parent_computed_style is not None and parent_computed_style.fontSize is not None:
                     result_font_size = parent_computed_style.fontSize * spec_font_size
+                    if isinstance(result_font_size, ebuttdt.PercentageFontSizeType) and \
+                            region_computed_style is not None and region_computed_style.fontSize is not None:
+                        # The fontSize of the parent was deferred until the region is known
+                        result_font_size = region_computed_style.fontSize * result_font_size
                 elif region_computed_style is not None and region_computed_style.fontSize is not None:
                     result_font_size = region_computed_style.fontSize * spec_font_size
                 else:
-- 
2.43.0


From c35ad4b3cdf204c5b12ef6dea24c7b1f3e826847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 45/53] fix: a line height in pixels requires the extent of the
 document like other sizes

---
 ebu_tt_live/bindings/_ebuttdt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 06e374d..eafff99 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -676,10 +676,15 @@ class PercentageLineHeightType(TwoDimSizingMixin, ebuttdt_raw.percentageLineHeig
 ebuttdt_raw.percentageLineHeightType._SetSupersedingClass(PercentageLineHeightType)
 
 
-class PixelLineHeightType(TwoDimSizingMixin, ebuttdt_raw.pixelLineHeightType):
+class PixelLineHeightType(TwoDimSizingMixin, SizingValidationMixin, ebuttdt_raw.pixelLineHeightType):
 
     _groups_regex = re.compile('(?P<first>\d*\.?\d+)px')
     _1dim_format = '{}px'
 
+    def _semantic_validate_sizing_context(self, dataset):
+        extent = dataset['tt_element'].extent
+        if extent is None:
+            raise ExtentMissingError(self)
+
 
 ebuttdt_raw.pixelLineHeightType._SetSupersedingClass(PixelLineHeightType)
-- 
2.43.0


From 87d87dbe832733c12cdc0c1012a9758e9ae08095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 46/53] fix: keep the sign of origin coordinates when reading
 them

---
 ebu_tt_live/bindings/_ebuttdt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index eafff99..b02a4c8 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -438,7 +438,7 @@ ebuttdt_raw.smpteTimingType._SetSupersedingClass(SMPTETimingType)
 
 class PixelOriginType(TwoDimSizingMixin, SizingValidationMixin, ebuttdt_raw.pixelOriginType):
 
-    _groups_regex = re.compile('(?:[+-]?(?P<first>\d*\.?\d+)(?:px))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:px))')
+    _groups_regex = re.compile('(?:(?P<first>[+-]?\d*\.?\d+)(?:px))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:px))')
     _2dim_format = '{}px {}px'
 
     def _semantic_validate_sizing_context(self, dataset):
@@ -451,7 +451,7 @@ ebuttdt_raw.pixelOriginType._SetSupersedingClass(PixelOriginType)
 
 class CellOriginType(TwoDimSizingMixin, ebuttdt_raw.cellOriginType):
 
-    _groups_regex = re.compile(r'(?:[+-]?(?P<first>\d*\.?\d+)(?:c))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:c))')
+    _groups_regex = re.compile(r'(?:(?P<first>[+-]?\d*\.?\d+)(?:c))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:c))')
     _2dim_format = '{}c {}c'
 
 ebuttdt_raw.cellOriginType._SetSupersedingClass(CellOriginType)
@@ -459,7 +459,7 @@ ebuttdt_raw.cellOriginType._SetSupersedingClass(CellOriginType)
 
 class PercentageOriginType(TwoDimSizingMixin, ebuttdt_raw.percentageOriginType):
 
-    _groups_regex = re.compile('(?:[+-]?(?P<first>\d*\.?\d+)(?:%))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:%))')
+    _groups_regex = re.compile('(?:(?P<first>[+-]?\d*\.?\d+)(?:%))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:%))')
     _2dim_format = '{}% {}%'
 
 ebuttdt_raw.percentageOriginType._SetSupersedingClass(PercentageOriginType)
-- 
2.43.0


From dc67155b57e6b394ce8c066e3f44065b62d8de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 47/53] fix: write durations below a millisecond as zero
 timecount instead of an invalid value

---
 ebu_tt_live/bindings/_ebuttdt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index b02a4c8..71f844c 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -263,10 +263,11 @@ class TimecountTimingType(_TimedeltaBindingMixin, ebuttdt_raw.timecountTimingTyp
         :param instance:
         :return:
         """
+        hours, minutes, seconds, milliseconds = _get_time_members(instance)
         # Get the edge case out of the way even though validation will catch a 0 duration later
-        if not instance:
+        # Anything below the millisecond is trimmed, therefore it is the same as no duration
+        if not (hours or minutes or seconds or milliseconds):
             return '0s'
-        hours, minutes, seconds, milliseconds = _get_time_members(instance)
         multiplier = 1
         numerator = 0
         unit = None
-- 
2.43.0


From 80ce503e57892419a7065cd5f7db6603e4869a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 48/53] fix: give every merged style and region an id of its
 own when splicing

---
 ebu_tt_live/bindings/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 7248f41..ce5b474 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -1023,8 +1023,9 @@ class styling(SemanticValidationMixin, raw.styling):
         if other_elem:
             for item in other_elem.orderedContent():
                 copied_style = copy.copy(item.value)
-                if item.value.id in style_ids:
+                while copied_style.id in style_ids:
                     copied_style.id = '{}.1'.format(copied_style.id)
+                style_ids.add(copied_style.id)
                 self.append(copied_style)
 
         return self
@@ -1104,9 +1105,9 @@ class layout(SemanticValidationMixin, raw.layout):
         if other_elem:
             for item in other_elem.orderedContent():
                 copied_region = copy.copy(item.value)
-                if copied_region.id in region_ids:
+                while copied_region.id in region_ids:
                     copied_region.id = '{}.1'.format(copied_region.id)
-                    region_ids.add(copied_region.id)
+                region_ids.add(copied_region.id)
                 self.append(copied_region)
         return self
 
-- 
2.43.0


From f6ed841c8d69621bbaf03399b002f4373f0d5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 49/53] fix: read the times of EBU-TT-D documents, which have
 no timeBase hook

---
 ebu_tt_live/bindings/_ebuttdt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 71f844c..eb8a40c 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -61,8 +61,8 @@ class _TimedeltaBindingMixin(object):
         context = get_xml_parsing_context()
         if context is not None:
             # This means we are in XML parsing context. There should be a timeBase and a timing_attribute_name in the
-            # context object.
-            time_base = context['timeBase']
+            # context object, except in EBU-TT-D, which has the media timeBase only.
+            time_base = context.get('timeBase')
             # It is possible for a timing type to exist as the value of an element not an attribute,
             # in which case no timing_attribute_name is in the context; in that case don't attempt
             # to validate the data against a timebase. At the moment this only affects the
-- 
2.43.0


From fc664051e429a17cb09c72d81a7d442b12d71c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 50/53] fix: read EBU-TT-D documents with a namespace prefix or
 non-ASCII content

---
 ebu_tt_live/documents/ebuttd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebuttd.py b/ebu_tt_live/documents/ebuttd.py
index 7934799..dec7353 100644
--- a/ebu_tt_live/documents/ebuttd.py
+++ b/ebu_tt_live/documents/ebuttd.py
@@ -1,4 +1,5 @@
 import logging
+import six
 from xml.dom import minidom
 from .base import SubtitleDocument, TimeBase
 from ebu_tt_live import bindings
@@ -36,9 +37,11 @@ class EBUTTDDocument(SubtitleDocument):
     def create_from_xml(cls, xml):
         # NOTE: This is a workaround to make the bindings accept separate root element identities
         # for the same name. tt comes in but we rename it to ttd to make the xsd validate.
+        if isinstance(xml, six.text_type):
+            xml = xml.encode('utf-8')
         xml_dom = minidom.parseString(xml)
-        if xml_dom.documentElement.tagName == 'tt':
-            xml_dom.documentElement.tagName = 'ttd'
+        if xml_dom.documentElement.tagName.split(':')[-1] == 'tt':
+            xml_dom.documentElement.tagName += 'd'
         instance = cls.create_from_raw_binding(
             binding=bindings.CreateFromDOM(
                 xml_dom
-- 
2.43.0


From ad0c3404b0559cd06dca1e77fa3bfa375c12ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 51/53] fix: write documents without adding white space to
 their text

---
 ebu_tt_live/bindings/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index ce5b474..43cfe24 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -528,10 +528,7 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
         dom = self.toDOM(self.__check_bds(bds), element_name=element_name)
         if root_only:
             dom = dom.documentElement
-        return dom.toprettyxml(
-            encoding=encoding,
-            indent='  '
-        )
+        return dom.toxml(encoding=encoding)
 
     def _semantic_after_subtree_copy(self, copied_instance, dataset, element_content=None):
         # This one does not have another parent to link with but it can make itself an element
@@ -1147,10 +1144,7 @@ class d_tt_type(raw.d_tt_type):
         dom = self.toDOM(self.__check_bds(bds), element_name=element_name)
         if root_only:
             dom = dom.documentElement
-        return dom.toprettyxml(
-            encoding=encoding,
-            indent='  '
-        )
+        return dom.toxml(encoding=encoding)
 
     def _validateBinding_vx(self):
         if self.timeBase != 'media':
-- 
2.43.0


From b07306672015a1744b3515963ba02aeca963a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:10 +0000
Subject: [PATCH 52/53] fix: raise PyXB's value errors with the arguments they
 take

---
 ebu_tt_live/bindings/_ebuttdt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index eb8a40c..dcce239 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -76,7 +76,7 @@ class _TimedeltaBindingMixin(object):
                         attr_value=args,
                         time_base=time_base
                     ))
-                    raise pyxb.SimpleTypeValueError(ERR_SEMANTIC_VALIDATION_TIMING_TYPE.format(
+                    raise pyxb.SimpleTypeValueError(cls, ERR_SEMANTIC_VALIDATION_TIMING_TYPE.format(
                         attr_name=timing_att_name,
                         attr_type=cls,
                         attr_value=args,
@@ -252,7 +252,7 @@ class TimecountTimingType(_TimedeltaBindingMixin, ebuttdt_raw.timecountTimingTyp
         elif unit == 'ms':
             return timedelta(milliseconds=numerator)
         else:
-            raise SimpleTypeValueError()
+            raise SimpleTypeValueError(cls, instance)
 
     @classmethod
     def from_timedelta(cls, instance):
-- 
2.43.0


From cbb6db205dc86883b1dc3564413d14ff734e3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 53/53] fix: broadcast already encoded documents with non-ASCII
 content on legacy websockets

---
 ebu_tt_live/twisted/websocket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index edb8fe4..ae8a5d3 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -544,8 +544,9 @@ class LegacyBroadcastServerFactory(WebSocketServerFactory):
     def broadcast(self, channel, msg):
         log.info("broadcasting message...")
 
+        payload = msg.encode("utf-8") if isinstance(msg, six.text_type) else msg
         for c in self._clients:
-            c.sendMessageOnChannel(channel, msg.encode("utf-8"), isBinary=False, doNotCompress=False, sync=False)
+            c.sendMessageOnChannel(channel, payload, isBinary=False, doNotCompress=False, sync=False)
 
     def stopFactory(self):
         self.unregisterProducer()
-- 
2.43.0

