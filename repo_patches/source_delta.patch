From d2d970e98529b2a13ff4b77b54795e3d067b8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/30] fix: Event.Delete removes only the addressed key

Deleting a nested key removed the whole top-level field that contained it.
---
 pkg/event/event.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ffebbee..fe732c0 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -129,11 +129,14 @@ func (e *Event) delete(path []string) (deleted *Value) {
 		return nil
 	}
 
-	v := e.get(path)
-	if v != nil {
-		delete(e.fields, path[0])
+	parent := e.get(path[:len(path)-1])
+	if parent == nil {
+		return nil
 	}
 
+	key := path[len(path)-1]
+	v := parent.Object[key]
+	delete(parent.Object, key)
 	return v
 }
 
-- 
2.43.0


From 62f1f81ab3bb1beae39df314f1d12ff6200946ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 02/30] fix: Event.Put and Event.Get tolerate null and empty
 parents

Addressing a key below a JSON null dereferenced a nil value, and putting below
an object without a map wrote to a nil map. Both panicked.
---
 pkg/event/event.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index fe732c0..ab62c17 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -78,9 +78,12 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
 		if found {
-			if inner.Type != ObjectType {
+			if inner == nil || inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
+			if inner.Object == nil {
+				inner.Object = map[string]*Value{}
+			}
 			m = inner.Object
 			continue
 		}
@@ -110,7 +113,7 @@ func (e *Event) get(path []string) *Value {
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
-		if !found || len(inner.Object) == 0 {
+		if !found || inner == nil || len(inner.Object) == 0 {
 			return nil
 		}
 		m = inner.Object
-- 
2.43.0


From 4fddb08c9402d05850b403e881e651a87841f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 03/30] fix: decode JSON null to a null value

encoding/json sets *Value to nil for null without calling UnmarshalJSON, so a
null field looked as if it did not exist (TryPut overwrote it).
---
 pkg/event/event.go |  5 +++++
 pkg/event/value.go | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ab62c17..c19fa95 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -152,6 +152,11 @@ func (e *Event) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	for k, v := range fields {
+		if v == nil {
+			fields[k] = NullValue
+		}
+	}
 	e.fields = fields
 	return nil
 }
diff --git a/pkg/event/value.go b/pkg/event/value.go
index fd695a8..7b55a72 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -121,11 +121,21 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		if err = json.Unmarshal(data, &v.Array); err != nil {
 			return err
 		}
+		for i, elem := range v.Array {
+			if elem == nil {
+				v.Array[i] = NullValue
+			}
+		}
 		v.Type = ArrayType
 	case json.Delim('{'):
 		if err = json.Unmarshal(data, &v.Object); err != nil {
 			return err
 		}
+		for k, elem := range v.Object {
+			if elem == nil {
+				v.Object[k] = NullValue
+			}
+		}
 		v.Type = ObjectType
 	default:
 		var value interface{}
-- 
2.43.0


From 8d74a34db68ac03207d16ff7f9b0a90adc26e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 04/30] fix: encode empty arrays, objects and events as [] and
 {}

An array or object without a backing slice or map, and an event without fields,
were encoded as null.
---
 pkg/event/event.go | 2 +-
 pkg/event/value.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index c19fa95..d3256f4 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -144,7 +144,7 @@ func (e *Event) delete(path []string) (deleted *Value) {
 }
 
 func (e *Event) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.fields)
+	return json.Marshal(Object(e.fields))
 }
 
 func (e *Event) UnmarshalJSON(data []byte) error {
diff --git a/pkg/event/value.go b/pkg/event/value.go
index 7b55a72..5705d06 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -106,6 +106,12 @@ func (v *Value) Format(f fmt.State, verb rune) {
 func (v *Value) MarshalJSON() ([]byte, error) {
 	// TODO: Replace this with an optimized version. There are a finite
 	// set of types so we can optimize this to avoid reflection.
+	switch {
+	case v.Type == ArrayType && v.Array == nil:
+		return []byte("[]"), nil
+	case v.Type == ObjectType && v.Object == nil:
+		return []byte("{}"), nil
+	}
 	return json.Marshal(v.value())
 }
 
-- 
2.43.0


From 709bf5db78111402f80b1504588a1c43902ed035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/30] fix: honour Drop and Cancel

Drop had a value receiver, so dropping an event had no effect; the dropped flag
was looked at only when the processor also returned an error; and the cancelled
flag was never read. Processing now stops after a processor drops or cancels the
event, and a dropped event is counted as discarded and is not output.
---
 pkg/pipeline/event.go     |  8 +++++++-
 pkg/pipeline/pipeline.go  |  8 +++++++-
 pkg/pipeline/processor.go | 20 +++++++++++++-------
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 0a7c740..3701939 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -48,10 +48,16 @@ func (e *pipelineEvent) Delete(key string) *event.Value {
 	return e.data.Delete(key)
 }
 
+// done reports whether processing of the event must stop because it was dropped
+// or cancelled.
+func (e *pipelineEvent) done() bool {
+	return e.dropped || e.cancelled
+}
+
 func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
-func (e pipelineEvent) Drop() {
+func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 32b138a..14b84a2 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -85,14 +85,20 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 			// Go to global on_failure handler.
 			break
 		}
+		if evt.done() {
+			return nil
+		}
 	}
 
-	if err != nil && len(pipe.onFailure) > 0 {
+	if err != nil && len(pipe.onFailure) > 0 && !evt.done() {
 		for _, proc := range pipe.onFailure {
 			if err = proc.Process(evt); err != nil {
 				// Failure in global on_failure.
 				return err
 			}
+			if evt.done() {
+				return nil
+			}
 		}
 	}
 
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 31c601f..ce6a146 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -49,12 +49,13 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 	// TODO: Check Condition before executing.
 	p.metricEventsInTotal.Inc()
 
-	if err := p.proc.Process(event); err != nil {
-		if event.dropped {
-			p.metricDiscardedEventsTotal.Inc()
-			return nil
-		}
+	err := p.proc.Process(event)
+	if event.dropped {
+		p.metricDiscardedEventsTotal.Inc()
+		return nil
+	}
 
+	if err != nil {
 		// Ignore Missing
 		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
 			p.metricEventsOutTotal.Inc()
@@ -62,12 +63,17 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 		}
 
 		// On Failure
-		if len(p.OnFailure) > 0 {
+		if len(p.OnFailure) > 0 && !event.done() {
 			for _, proc := range p.OnFailure {
-				if err = proc.Process(event); err != nil {
+				if err = proc.Process(event); err != nil || event.done() {
 					break
 				}
 			}
+
+			if event.dropped {
+				p.metricDiscardedEventsTotal.Inc()
+				return nil
+			}
 		}
 
 		// Ignore Failure
-- 
2.43.0


From a687742d398e69aaddb159ebb7bd58fe59d597e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 06/30] fix: count events recovered by on_failure as sent, not
 as errors

---
 pkg/pipeline/processor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index ce6a146..e39273c 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -74,10 +74,16 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 				p.metricDiscardedEventsTotal.Inc()
 				return nil
 			}
+
+			// Recovered from the error.
+			if err == nil {
+				p.metricEventsOutTotal.Inc()
+				return nil
+			}
 		}
 
 		// Ignore Failure
-		if p.IgnoreFailure && err != nil {
+		if p.IgnoreFailure {
 			p.metricEventsOutTotal.Inc()
 			return nil
 		}
-- 
2.43.0


From bb8eaa8b0cdaaaea5652b017a3dce37bf3d31a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 07/30] fix: export the metrics of global on_failure processors

---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 14b84a2..7eccc32 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -130,6 +130,9 @@ func (pipe *Pipeline) visitProcessors(visit func(processor *pipelineProcessor))
 	for _, proc := range pipe.processors {
 		visitProcessor(visit, proc)
 	}
+	for _, proc := range pipe.onFailure {
+		visitProcessor(visit, proc)
+	}
 }
 
 func visitProcessor(visit func(processor *pipelineProcessor), proc *pipelineProcessor) {
-- 
2.43.0


From 2437e265c183cdc53dac1a8c791360a811528d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/30] fix: return errors for a nil pipeline config and a nil
 event

A null document decodes to a nil *Config or *Event, and both panicked.
---
 pkg/pipeline/pipeline.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 7eccc32..51f8733 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -32,7 +32,7 @@ type Pipeline struct {
 }
 
 func New(config *Config) (*Pipeline, error) {
-	if config.ID == "" {
+	if config == nil || config.ID == "" {
 		return nil, errors.New("pipeline must have a non-empty id")
 	}
 
@@ -61,6 +61,10 @@ func New(config *Config) (*Pipeline, error) {
 //	Processing error - Empty slice and non-nil error.
 //	Event split - Slice length is greater than 1 and non-nil error.
 func (pipe *Pipeline) Process(evt *event.Event) (*event.Event, error) {
+	if evt == nil {
+		return nil, errors.New("cannot process a nil event")
+	}
+
 	pipeEvt := &pipelineEvent{data: evt}
 
 	if err := pipe.process(pipeEvt); err != nil {
-- 
2.43.0


From 10deebc708b0b09a130d048c22e7188407ef0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 09/30] fix: reject malformed processors with an error instead
 of panicking

Registering nil or a nil function, and building a pipeline with a processor
whose Config method takes arguments or does not return a struct, panicked in
package reflect.
---
 pkg/pipeline/processor.go          |  6 ++++++
 pkg/processor/registry/registry.go | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index e39273c..3963efc 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -197,7 +197,13 @@ func ignores(proc interface{}) (ignoreMissing, ignoreFailure *bool, err error) {
 	if m.Type().NumOut() != 1 {
 		return nil, nil, fmt.Errorf("error Config() must return one value")
 	}
+	if m.Type().NumIn() != 0 {
+		return nil, nil, fmt.Errorf("error Config() must not accept arguments")
+	}
 	out := m.Call(nil)[0]
+	if out.Kind() != reflect.Struct {
+		return nil, nil, fmt.Errorf("error Config() must return a struct")
+	}
 
 	if v := out.FieldByName("IgnoreMissing"); v != zeroValue && v.Kind() == reflect.Bool {
 		boolValue := v.Bool()
diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index e641d2a..c97dde2 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -96,11 +96,13 @@ func (r *Registry) clear() {
 
 func validateConfig(i interface{}) (*processorConstructor, error) {
 	v := reflect.ValueOf(i)
-	t := v.Type()
-
-	if t.Kind() != reflect.Func {
-		return nil, fmt.Errorf("value must be a function, but got %v", t.Kind())
+	if v.Kind() != reflect.Func {
+		return nil, fmt.Errorf("value must be a function, but got %v", v.Kind())
 	}
+	if v.IsNil() {
+		return nil, fmt.Errorf("value must be a non-nil function")
+	}
+	t := v.Type()
 
 	// Check config.
 	if t.NumIn() != 1 {
@@ -123,7 +125,7 @@ func validateConfig(i interface{}) (*processorConstructor, error) {
 	}
 
 	errorType := t.Out(1)
-	if !errorType.Implements(errorInterface) {
+	if k := errorType.Kind(); (k != reflect.Interface && k != reflect.Ptr) || !errorType.Implements(errorInterface) {
 		return nil, fmt.Errorf("function should return an error")
 	}
 
-- 
2.43.0


From cb17cea56e943a2ad9b0e40bc52cd35da1b61b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 10/30] fix: set must not share values between the config and
 events

The set processor stored a pointer to its own configured value in every event
(and with copy_from a second reference to the source value), so a later change
to one event changed the configuration and all other events.
---
 pkg/event/value.go           | 22 ++++++++++++++++++++++
 pkg/processor/set/process.go |  3 ++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 5705d06..d5a5d0e 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -172,6 +172,28 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Clone returns a deep copy of the value.
+func (v *Value) Clone() *Value {
+	if v == nil {
+		return nil
+	}
+
+	c := *v
+	if v.Array != nil {
+		c.Array = make([]*Value, 0, len(v.Array))
+		for _, elem := range v.Array {
+			c.Array = append(c.Array, elem.Clone())
+		}
+	}
+	if v.Object != nil {
+		c.Object = make(map[string]*Value, len(v.Object))
+		for k, elem := range v.Object {
+			c.Object[k] = elem.Clone()
+		}
+	}
+	return &c
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 8275dc9..f4ec6f2 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -25,12 +25,13 @@ import (
 func (p *Set) Process(evt processor.Event) error {
 	var v *event.Value
 	if p.config.Value.Type != event.NullType {
-		v = (*event.Value)(&p.config.Value)
+		v = (*event.Value)(&p.config.Value).Clone()
 	} else if p.config.CopyFrom != "" {
 		v = evt.Get(p.config.CopyFrom)
 		if v == nil {
 			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
 		}
+		v = v.Clone()
 	}
 
 	_, err := evt.Put(p.config.TargetField, v)
-- 
2.43.0


From 4a3c6a371a095d6d16b6d2379757c187278d682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 11/30] fix: lowercase and uppercase treat a null field as
 missing

ignore_missing is documented to apply if the field does not exist or is null.
---
 pkg/processor/lowercase/process.go | 2 +-
 pkg/processor/uppercase/process.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/processor/lowercase/process.go b/pkg/processor/lowercase/process.go
index 2281c89..96bd8ee 100644
--- a/pkg/processor/lowercase/process.go
+++ b/pkg/processor/lowercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Lowercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
diff --git a/pkg/processor/uppercase/process.go b/pkg/processor/uppercase/process.go
index 49e87f4..948a70c 100644
--- a/pkg/processor/uppercase/process.go
+++ b/pkg/processor/uppercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Uppercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
-- 
2.43.0


From 5f1a5f133bf89c7734f2b5b28d8b72e873fa2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 12/30] fix: append stores its result and honours its options

The array made from an existing scalar was never stored and scalars other than
strings were rejected, a failure to store a new array was ignored, and
allow_duplicates and ignore_missing had no effect.
---
 pkg/processor/append/process.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index 6186b54..a8fe4c3 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -26,15 +26,26 @@ import (
 
 func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
+		if p.config.IgnoreMissing {
+			return nil
+		}
 		v = event.Array()
-		evt.Put(p.config.Field, v)
-	} else if v.Type == event.StringType {
-		v = event.Array(v)
-	} else if v.Type != event.ArrayType {
+	} else if v.Type == event.ObjectType {
 		return errors.New("value to append to is not array")
+	} else if v.Type != event.ArrayType {
+		v = event.Array(v)
+	}
+
+	if !p.config.AllowDuplicates {
+		for _, elem := range v.Array {
+			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {
+				return nil
+			}
+		}
 	}
 
 	v.Array = append(v.Array, event.String(p.config.Value))
-	return nil
+	_, err := evt.Put(p.config.Field, v)
+	return err
 }
-- 
2.43.0


From a3d0387d9dda6d1cd1983fea0592f6af86a6d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 13/30] fix: ReflectValue handles nil errors, interface fields
 and uintptr kinds

A nil pointer of an error type, a nil error field and a nil Stringer tagged
"string" panicked; non-nil interface fields and named uintptr types were
reported as unsupported; and a field tagged "string" without a String method
was silently dropped.
---
 pkg/eventutil/reflect.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index b0b6d5b..ab06cb9 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -100,6 +100,10 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	typ := rv.Type()
 
+	if k := typ.Kind(); (k == reflect.Ptr || k == reflect.Interface) && rv.IsNil() {
+		return event.NullValue, nil
+	}
+
 	switch {
 	case typ.Implements(errorInterface):
 		err := rv.Interface().(error)
@@ -107,16 +111,13 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	}
 
 	switch typ.Kind() {
-	case reflect.Ptr:
-		if rv.IsNil() {
-			return event.NullValue, nil
-		}
+	case reflect.Ptr, reflect.Interface:
 		return reflectToValue(rv.Elem())
 	case reflect.Bool:
 		return event.Bool(rv.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return event.Integer(rv.Int()), nil
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return event.UnsignedInteger(rv.Uint()), nil
 	case reflect.Float32, reflect.Float64:
 		return event.Float(rv.Float()), nil
@@ -198,12 +199,12 @@ func reflectStructToObject(rv reflect.Value) (*event.Value, error) {
 			return nil, err
 		}
 
-		if tagOpts.Has("string") {
+		if tagOpts.Has("string") && finalVal.Type != event.NullType {
 			s, ok := val.Interface().(fmt.Stringer)
 			if ok {
 				obj[name] = event.String(s.String())
+				continue
 			}
-			continue
 		}
 
 		obj[name] = finalVal
-- 
2.43.0


From 26b44b5ac16466e3be4b9d3fe8beeb6bcfea653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 14/30] fix: do not escape the keys of nested objects

The keys of an object are plain names, not paths. Escaping them put a backslash
into every nested key that contains a dot, so it could not be addressed and did
not survive a round trip.
---
 pkg/eventutil/reflect.go               | 2 +-
 pkg/serialization/protobuf/protobuf.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index ab06cb9..cc4ad3b 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -87,7 +87,7 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 				return nil, fmt.Errorf("failed on key %q: %w", k, err)
 			}
 
-			obj[EscapeKey(k)] = v
+			obj[k] = v
 		}
 		return event.Object(obj), nil
 	case nil:
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index e41c310..fac93c9 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -158,7 +158,7 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Object:
 		fields := make(map[string]*event.Value, len(t.Object.Fields))
 		for k, v := range t.Object.Fields {
-			fields[eventutil.EscapeKey(k)] = toEventValue(v)
+			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
 	case *Value_String_:
-- 
2.43.0


From 3887169b7bb392c62d7dd4e5444e1de76afabe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 15/30] fix: ToEvent reports keys that cannot be stored instead
 of dropping them

---
 pkg/serialization/mapinterface/mapinterface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/serialization/mapinterface/mapinterface.go b/pkg/serialization/mapinterface/mapinterface.go
index 99c769e..452ace6 100644
--- a/pkg/serialization/mapinterface/mapinterface.go
+++ b/pkg/serialization/mapinterface/mapinterface.go
@@ -46,7 +46,9 @@ func ToEvent(m map[string]interface{}) (*event.Event, error) {
 
 	evt := event.New()
 	for k, v := range fields.Object {
-		evt.Put(eventutil.EscapeKey(k), v)
+		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {
+			return nil, err
+		}
 	}
 
 	return evt, nil
-- 
2.43.0


From 1e859d525f66237e318c82962a8261252bcf85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/30] fix: protobuf conversion of nulls, unset values and
 empty events

A nil value was encoded as a value without a kind, decoding a value without a
kind panicked, and an empty event was decoded to a nil event.
---
 pkg/serialization/protobuf/protobuf.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index fac93c9..51510bb 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -38,7 +38,7 @@ func FromEvent(evt *event.Event) *MessageWrapper {
 
 func fromEventValue(v *event.Value) *Value {
 	if v == nil {
-		return nil
+		v = event.NullValue
 	}
 
 	switch v.Type {
@@ -109,7 +109,7 @@ func fromEventValue(v *event.Value) *Value {
 
 func fromEventValueObject(v *event.Value) *ValueObject {
 	if v == nil {
-		return nil
+		return &ValueObject{}
 	}
 
 	if v.Type != event.ObjectType {
@@ -141,11 +141,11 @@ func ToLogEvent(l *Log) *event.Event {
 
 func toEventValue(v *Value) *event.Value {
 	switch t := v.GetKind().(type) {
-	case *Value_Null:
+	case nil, *Value_Null:
 		return event.NullValue
 	case *Value_Array:
-		items := make([]*event.Value, 0, len(t.Array.Items))
-		for _, x := range t.Array.Items {
+		items := make([]*event.Value, 0, len(t.Array.GetItems()))
+		for _, x := range t.Array.GetItems() {
 			items = append(items, toEventValue(x))
 		}
 		return event.Array(items...)
@@ -156,8 +156,8 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Integer:
 		return event.Integer(t.Integer)
 	case *Value_Object:
-		fields := make(map[string]*event.Value, len(t.Object.Fields))
-		for k, v := range t.Object.Fields {
+		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
+		for k, v := range t.Object.GetFields() {
 			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
-- 
2.43.0


From d1bf2ca621dc3256beae0a5c5026bf3e6a62f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 17/30] fix: docs generator must not write a partial README
 when a template fails

---
 docs/generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index d2111a6..821c0e2 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -88,7 +88,7 @@ func main() {
 
 	// Render template.
 	buf := new(bytes.Buffer)
-	if templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
+	if err = templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
 		log.Fatal(err)
 	}
 
-- 
2.43.0


From 0881ea4e9f79229c9a8f3815cc46ae212667e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 18/30] fix: documented set example uses an option that exists

set has no field option, so the example pipeline always failed.
---
 docs/README.md                        | 2 +-
 docs/generate/assets/README.md.gotmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/README.md b/docs/README.md
index 43d7884..1c87229 100644
--- a/docs/README.md
+++ b/docs/README.md
@@ -33,7 +33,7 @@ description: >
   Summarize the purpose of the pipeline.
 processors:
   - set:
-      field: label.app
+      target_field: label.app
       value: some-app
 on_failure:
   - set:
diff --git a/docs/generate/assets/README.md.gotmpl b/docs/generate/assets/README.md.gotmpl
index 57d0739..8c14b8d 100644
--- a/docs/generate/assets/README.md.gotmpl
+++ b/docs/generate/assets/README.md.gotmpl
@@ -33,7 +33,7 @@ description: >
   Summarize the purpose of the pipeline.
 processors:
   - set:
-      field: label.app
+      target_field: label.app
       value: some-app
 on_failure:
   - set:
-- 
2.43.0


From 1ff76e307205e5ee15dc926b526bd1e2b1dec0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 19/30] fix: community_id accepts the documented seed range

Seeds from 32768 to 65535 were rejected because the option was an int16.
---
 docs/README.md                             | 2 +-
 pkg/processor/community_id/community_id.go | 2 +-
 pkg/processor/processors.yml               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/README.md b/docs/README.md
index 1c87229..9a9c11c 100644
--- a/docs/README.md
+++ b/docs/README.md
@@ -83,7 +83,7 @@ configuration is required.
 | icmp_code |  | x | string | icmp.code | Field containing the ICMP code. |
 | icmp_type |  | x | string | icmp.type | Field containing the ICMP type. |
 | ignore_failure |  | x | bool |  | Ignore failures for the processor. |
-| seed |  | x | int16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
+| seed |  | x | uint16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
 | source_ip |  | x | string | source.ip | Field containing the source IP address. |
 | source_port |  | x | string | source.port | Field containing the source port. |
 | target_field |  | x | string | network.community_id | The field to assign the output value to, by default field is updated in-place. |
diff --git a/pkg/processor/community_id/community_id.go b/pkg/processor/community_id/community_id.go
index 1101b1b..a0d2d28 100644
--- a/pkg/processor/community_id/community_id.go
+++ b/pkg/processor/community_id/community_id.go
@@ -55,7 +55,7 @@ type Config struct {
 	// (inclusive). The seed can prevent hash collisions between network
 	// domains, such as a staging and production network that use the same
 	// addressing scheme.
-	Seed int16 `config:"seed"`
+	Seed uint16 `config:"seed"`
 
 	// Field containing the source IP address.
 	SourceIP string `config:"source_ip"`
diff --git a/pkg/processor/processors.yml b/pkg/processor/processors.yml
index 9667927..98d7037 100644
--- a/pkg/processor/processors.yml
+++ b/pkg/processor/processors.yml
@@ -118,7 +118,7 @@ processors:
             Field containing the transport protocol. Used only when the
             iana_number field is not present.
         - name: seed
-          type: int16
+          type: uint16
           optional: true
           default: 0
           description: |-
-- 
2.43.0


From 06c661bcde2b419ad90b32ca3a60a4f2f7a31533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 20/30] fix: sawmill must not output null for dropped events

---
 cmd/sawmill/sawmill.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index 11a8742..10debcd 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -143,6 +143,11 @@ func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 			continue
 		}
 
+		// Skip dropped events.
+		if evt == nil {
+			continue
+		}
+
 		if err := enc.Encode(evt); err != nil {
 			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
 			continue
-- 
2.43.0


From 5d67958aa565e99a8aafbaeb0a67af3909b0c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 21/30] fix: implement the remove processor

It was registered and documented, but did nothing.
---
 pkg/processor/remove/process.go | 31 +++++++++++++++++++++++++++++++
 pkg/processor/remove/remove.go  |  5 -----
 2 files changed, 31 insertions(+), 5 deletions(-)
 create mode 100644 pkg/processor/remove/process.go

diff --git a/pkg/processor/remove/process.go b/pkg/processor/remove/process.go
new file mode 100644
index 0000000..6f654fa
--- /dev/null
+++ b/pkg/processor/remove/process.go
@@ -0,0 +1,31 @@
+// Licensed to Elasticsearch B.V. under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. Elasticsearch B.V. licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package remove
+
+import (
+	"github.com/andrewkroh/go-sawmill/pkg/processor"
+)
+
+func (p *Remove) Process(evt processor.Event) error {
+	for _, field := range p.config.Fields {
+		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
+			return processor.ErrorKeyMissing{Key: field}
+		}
+	}
+	return nil
+}
diff --git a/pkg/processor/remove/remove.go b/pkg/processor/remove/remove.go
index 4d3965d..2b88a7a 100644
--- a/pkg/processor/remove/remove.go
+++ b/pkg/processor/remove/remove.go
@@ -65,8 +65,3 @@ func (p *Remove) Config() Config {
 func (p *Remove) String() string {
 	return processor.ConfigString(processorName, p.config)
 }
-
-func (p *Remove) Process(event processor.Event) error {
-	// TODO: Implement this in process.go.
-	return nil
-}
-- 
2.43.0


From 372583d16fc588ae6a4ec84ad62091f515575baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 22/30] fix: processing without a pipeline returns an error

The C example calls Process on a nil pipeline if none was loaded, which
crashed the host program.
---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 51f8733..de1c40c 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -61,6 +61,9 @@ func New(config *Config) (*Pipeline, error) {
 //	Processing error - Empty slice and non-nil error.
 //	Event split - Slice length is greater than 1 and non-nil error.
 func (pipe *Pipeline) Process(evt *event.Event) (*event.Event, error) {
+	if pipe == nil {
+		return nil, errors.New("no pipeline is loaded")
+	}
 	if evt == nil {
 		return nil, errors.New("cannot process a nil event")
 	}
-- 
2.43.0


From 4ff8eb8627aaeac6ca79b47235939fb148cb1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 23/30] fix: protobuf.ToLogEvent keeps members with empty names
 and backslashes

---
 pkg/event/event.go                     | 6 ++++++
 pkg/serialization/protobuf/protobuf.go | 7 +++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index d3256f4..0180503 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -39,6 +39,12 @@ func New() *Event {
 	return &Event{}
 }
 
+// NewFromFields returns an event with the given members. The names are used as
+// they are, not interpreted as keys. The event owns the map.
+func NewFromFields(fields map[string]*Value) *Event {
+	return &Event{fields: fields}
+}
+
 func (e *Event) init() {
 	e.fields = map[string]*Value{}
 }
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index 51510bb..cce90f4 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -21,7 +21,6 @@ import (
 	"fmt"
 
 	"github.com/andrewkroh/go-sawmill/pkg/event"
-	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
 )
 
 // FromEvent returns a protocol buffer message containing the log
@@ -132,11 +131,11 @@ func ToLogEvent(l *Log) *event.Event {
 		return nil
 	}
 
-	evt := event.New()
+	fields := make(map[string]*event.Value, len(l.Object.Fields))
 	for k, v := range l.Object.Fields {
-		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
+		fields[k] = toEventValue(v)
 	}
-	return evt
+	return event.NewFromFields(fields)
 }
 
 func toEventValue(v *Value) *event.Value {
-- 
2.43.0


From 1332fd789b92fdddc16f8475ca4c2d80569a92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 24/30] fix: do not panic on nil embedded pointers in processor
 configurations

---
 pkg/pipeline/processor.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 3963efc..484603b 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -205,13 +205,27 @@ func ignores(proc interface{}) (ignoreMissing, ignoreFailure *bool, err error) {
 		return nil, nil, fmt.Errorf("error Config() must return a struct")
 	}
 
-	if v := out.FieldByName("IgnoreMissing"); v != zeroValue && v.Kind() == reflect.Bool {
+	if v := fieldByName(out, "IgnoreMissing"); v != zeroValue && v.Kind() == reflect.Bool {
 		boolValue := v.Bool()
 		ignoreMissing = &boolValue
 	}
-	if v := out.FieldByName("IgnoreFailure"); v != zeroValue && v.Kind() == reflect.Bool {
+	if v := fieldByName(out, "IgnoreFailure"); v != zeroValue && v.Kind() == reflect.Bool {
 		boolValue := v.Bool()
 		ignoreFailure = &boolValue
 	}
 	return ignoreMissing, ignoreFailure, nil
 }
+
+// fieldByName returns the field of the struct, or the zero value if there is
+// none or it belongs to an embedded struct whose pointer is nil.
+func fieldByName(v reflect.Value, name string) reflect.Value {
+	f, found := v.Type().FieldByName(name)
+	if !found {
+		return reflect.Value{}
+	}
+	field, err := v.FieldByIndexErr(f.Index)
+	if err != nil {
+		return reflect.Value{}
+	}
+	return field
+}
-- 
2.43.0


From 8e07f966b23dbb837f5addaefa51d59f6d30b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 25/30] fix: decoding JSON into a value replaces it completely

Decoding into a Value that was used before reused the elements of its array,
which changed NullValue if one of them was null, and kept old members and
old content of other types.
---
 pkg/event/value.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index d5a5d0e..bc8676f 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -124,25 +124,27 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 
 	switch tok {
 	case json.Delim('['):
-		if err = json.Unmarshal(data, &v.Array); err != nil {
+		var array []*Value
+		if err = json.Unmarshal(data, &array); err != nil {
 			return err
 		}
-		for i, elem := range v.Array {
+		for i, elem := range array {
 			if elem == nil {
-				v.Array[i] = NullValue
+				array[i] = NullValue
 			}
 		}
-		v.Type = ArrayType
+		*v = Value{Type: ArrayType, Array: array}
 	case json.Delim('{'):
-		if err = json.Unmarshal(data, &v.Object); err != nil {
+		var object map[string]*Value
+		if err = json.Unmarshal(data, &object); err != nil {
 			return err
 		}
-		for k, elem := range v.Object {
+		for k, elem := range object {
 			if elem == nil {
-				v.Object[k] = NullValue
+				object[k] = NullValue
 			}
 		}
-		v.Type = ObjectType
+		*v = Value{Type: ObjectType, Object: object}
 	default:
 		var value interface{}
 		if err = json.Unmarshal(data, &value); err != nil {
@@ -151,19 +153,15 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 
 		switch x := value.(type) {
 		case string:
-			v.Type = StringType
-			v.String = x
+			*v = Value{Type: StringType, String: x}
 		case float64:
-			v.Type = FloatType
-			v.Float = x
+			*v = Value{Type: FloatType, Float: x}
 		case int64:
-			v.Type = IntegerType
-			v.Integer = x
+			*v = Value{Type: IntegerType, Integer: x}
 		case bool:
-			v.Type = BoolType
-			v.Bool = x
+			*v = Value{Type: BoolType, Bool: x}
 		case nil:
-			v.Type = NullType
+			*v = Value{Type: NullType}
 		default:
 			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
 		}
-- 
2.43.0


From da2d9d602d2651a3ac7d2451c6abf025251928f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 26/30] fix: the code generator must not add a stub when the
 existing file cannot be read or parsed

---
 pkg/processor/generate/generate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/processor/generate/generate.go b/pkg/processor/generate/generate.go
index 834da8c..f33c565 100644
--- a/pkg/processor/generate/generate.go
+++ b/pkg/processor/generate/generate.go
@@ -94,6 +94,9 @@ func main() {
 			// Check if the existing file has been modified and keep that
 			// modification.
 			hasProcess, err := hasProcessFunc(outputGoFile)
+			if err != nil && !os.IsNotExist(err) {
+				log.Fatal(err)
+			}
 			if err == nil && !hasProcess {
 				templateData.IncludeProcessFunc = false
 			}
-- 
2.43.0


From 75862f10f46d6be6e600c0aa5d5cc8a66f6bdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 27/30] fix: long descriptions must not be garbled in generated
 comments

The bytes of a scanner are only valid until the next call of Scan, but
trimTrailingWhitespace kept them for all lines, so that descriptions longer
than the buffer of the scanner came out with wrong words.
---
 internal/proctemplate/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 2581b13..d888c28 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -65,7 +65,7 @@ func trimTrailingWhitespace(text string) (string, error) {
 	var lines [][]byte
 	s := bufio.NewScanner(bytes.NewBufferString(text))
 	for s.Scan() {
-		lines = append(lines, bytes.TrimRightFunc(s.Bytes(), unicode.IsSpace))
+		lines = append(lines, bytes.TrimRightFunc([]byte(s.Text()), unicode.IsSpace))
 	}
 	if err := s.Err(); err != nil {
 		return "", err
-- 
2.43.0


From 5a6f7e193960947acf009cab45c39114c73a08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 28/30] fix: failures to register or serve the metrics must be
 reported

A port that is taken or two collectors with the same name left the program
without metrics and without a word about it.
---
 pkg/metrics/metrics.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/metrics/metrics.go b/pkg/metrics/metrics.go
index 2ec480f..0c4a62b 100644
--- a/pkg/metrics/metrics.go
+++ b/pkg/metrics/metrics.go
@@ -18,6 +18,7 @@
 package metrics
 
 import (
+	"log"
 	"net/http"
 
 	"github.com/prometheus/client_golang/prometheus"
@@ -38,7 +39,9 @@ func init() {
 
 func Register(c ...prometheus.Collector) {
 	for _, coll := range c {
-		reg.Register(coll)
+		if err := reg.Register(coll); err != nil {
+			log.Printf("Failed to register metrics: %v", err)
+		}
 	}
 }
 
@@ -60,5 +63,9 @@ func Listen(host string) {
 	})
 	mux := http.NewServeMux()
 	mux.Handle("/metrics", httpHandler)
-	go http.ListenAndServe(host, mux)
+	go func() {
+		if err := http.ListenAndServe(host, mux); err != nil {
+			log.Printf("Failed to serve metrics: %v", err)
+		}
+	}()
 }
-- 
2.43.0


From 0cf860abf90f8a3b7b9222cf36d3df112dc8bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 29/30] fix: the text form of a processor must tell if its
 configuration cannot be encoded

ConfigString discarded the error, so that for instance a set processor with
the value NaN was shown as one without a configuration.
---
 pkg/processor/api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/processor/api.go b/pkg/processor/api.go
index c299260..6736937 100644
--- a/pkg/processor/api.go
+++ b/pkg/processor/api.go
@@ -48,6 +48,8 @@ func ConfigString(name string, v interface{}) string {
 
 	enc := json.NewEncoder(&buf)
 	enc.SetEscapeHTML(false)
-	_ = enc.Encode(v)
+	if err := enc.Encode(v); err != nil {
+		buf.WriteString(err.Error())
+	}
 	return buf.String()
 }
-- 
2.43.0


From 024fb291e16bf54b2e3ff1a54f02b48c048259b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:31 +0000
Subject: [PATCH 30/30] fix: fail instead of losing members when map keys or
 field names coincide

Distinct map keys can have the same text (1 and "1" in a map with
interface keys), and distinct struct fields the same name (through tags
or case). ReflectValue kept one of them, for maps one picked at random.
Such a value cannot be represented, so the conversion fails.
---
 pkg/eventutil/reflect.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index cc4ad3b..f57dd8f 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -163,6 +163,10 @@ func reflectMapToObject(rv reflect.Value) (*event.Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		if _, exists := obj[key]; exists {
+			// Distinct keys with the same text.
+			return nil, &UnsupportedTypeError{rv.Type()}
+		}
 		obj[key] = val
 	}
 
@@ -194,6 +198,11 @@ func reflectStructToObject(rv reflect.Value) (*event.Value, error) {
 			}
 		}
 
+		if _, exists := obj[name]; exists {
+			// Distinct fields with the same name.
+			return nil, &UnsupportedTypeError{rv.Type()}
+		}
+
 		finalVal, err := reflectToValue(val)
 		if err != nil {
 			return nil, err
-- 
2.43.0

