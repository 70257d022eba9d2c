From 32e701a5a6f7277b26c02f5501fa63d46a694e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:38 +0000
Subject: [PATCH 01/37] fix: report NO_MORE_EVENTS when the event queue drains

---
 pysim/sim/simulator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..47d8e48 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -429,9 +429,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -439,6 +436,11 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        # Если модель никто не остановил, значит, закончились события
+        if self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From f16cbd720301323e77aca8a37f09a3c290ab0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:38 +0000
Subject: [PATCH 02/37] fix: stop the run after max_num_events events

---
 pysim/sim/simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 47d8e48..28086b1 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_NUM_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -362,6 +363,9 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif self._max_num_events is not None and self._num_events_served >= self._max_num_events:
+            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From f0042f9f8bc4eabeff4e811876016b7971158a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:38 +0000
Subject: [PATCH 03/37] fix: keep the debug mode requested in
 build_simulation()

---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 28086b1..eebfa5b 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -543,7 +543,7 @@ def build_simulation(
     kernel.set_debug(debug)
 
     # Запускаем модель и возвращаем все, что она вернет
-    return kernel.build_runner()
+    return kernel.build_runner(debug)
 
 
 def run_simulation(sim: Iterator[ExecResult]) -> ExecResult:
-- 
2.43.0


From 9f081e4ef949c7bce3f8c0696fae1046595c776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:01 +0000
Subject: [PATCH 04/37] fix: print pingpong sweep values in the order of their
 results

---
 pysim/models/pingpong/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/cli.py b/pysim/models/pingpong/cli.py
index 1a73835..73294bc 100755
--- a/pysim/models/pingpong/cli.py
+++ b/pysim/models/pingpong/cli.py
@@ -104,6 +104,9 @@ def cli_run(**kwargs):
     if variadic is None:
         result = create_config(kwargs)
     else:
+        # Результаты идут по возрастанию варьируемого аргумента, без
+        # дубликатов - в таком же порядке нужно вывести и его значения
+        kwargs[variadic] = tuple(sorted(set(kwargs[variadic])))
         result = run_multiple_simulation(variadic, **kwargs)
     result_processing(kwargs, result, variadic)
 
-- 
2.43.0


From 2dd75b02f678fa912ae41921593c838a78b081fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:18 +0000
Subject: [PATCH 05/37] fix: report the share of missed pongs, not of received
 ones

---
 README.md                         | 2 +-
 pysim/models/pingpong/README.md   | 6 +++---
 pysim/models/pingpong/handlers.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index 0800fce..0cd29e1 100755
--- a/README.md
+++ b/README.md
@@ -109,7 +109,7 @@ Running PingPong model
 Параметры: {'loss_prob': 0.8, 'interval': 10.0, 'channel_delay': 2.0, 'service_delay': 1.0, 'max_pings': 1000000}
 - Средний интервал отправки Ping клиентом(условные единицы) = 10.0
 - Средняя длительность передачи сообщения(условные единицы) = 2.0
-- Вероятность потери сообщения = 0.19953
+- Вероятность потери сообщения = 0.80047
 
 ```
 
diff --git a/pysim/models/pingpong/README.md b/pysim/models/pingpong/README.md
index 0d03bce..6120ee5 100644
--- a/pysim/models/pingpong/README.md
+++ b/pysim/models/pingpong/README.md
@@ -61,7 +61,7 @@ python3 cli.py -l 0.7
 Параметры: {'loss_prob': 0.7, 'interval': 10.0, 'channel_delay': 2.0, 'service_delay': 1.0, 'max_pings': 1000000}
 - Средний интервал отправки Ping клиентом(условные единицы) = 10.0
 - Средняя длительность передачи сообщения(условные единицы) = 2.0
-- Вероятность потери сообщения = 0.299611 
+- Вероятность потери сообщения = 0.700389 
 ```
 а для команды 
 ```
@@ -86,7 +86,7 @@ python3 cli.py -i 15 -i 25 -i 35 -i 45 -i 55
 +--------------+---------------------------------------------------+
 | avg_interval |          [15.0, 25.0, 35.0, 45.0, 55.0]           |
 |  avg_delay   |             [2.0, 2.0, 2.0, 2.0, 2.0]             |
-|  miss_rate   | [0.900109, 0.89992, 0.899941, 0.900157, 0.900191] |
+|  miss_rate   | [0.099891, 0.10008, 0.100059, 0.099843, 0.099809] |
 +--------------+---------------------------------------------------+
 ```
 Также если передать функции `result_processing` в модуле `processing.py` параметр
@@ -97,7 +97,7 @@ save_results=True
 Пример файла для одной из команд выше:
 ```
 Входные параметры: {"interval": [15.0, 25.0, 35.0, 45.0], "channel_delay": 2.0, "service_delay": 1.0, "loss_prob": 0.1, "max_pings": 1000000}
-Результаты моделирования: {"avg_interval": [15.0, 25.0, 35.0, 45.0], "avg_delay": [2.0, 2.0, 2.0, 2.0], "miss_rate": [0.900471, 0.89983, 0.900341, 0.900455]}
+Результаты моделирования: {"avg_interval": [15.0, 25.0, 35.0, 45.0], "avg_delay": [2.0, 2.0, 2.0, 2.0], "miss_rate": [0.099529, 0.10017, 0.099659, 0.099545]}
 ```
 
 
diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..ba93db4 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,6 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            1 - model.client.num_acknowledged / model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From 2d5ade70c3181835a3eea0d692d7fb0ad2cfd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:22 +0000
Subject: [PATCH 06/37] fix: count the ping interval of lost pings, so that a
 run losing all pings has results

---
 pysim/models/pingpong/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..a9fed32 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -175,6 +175,9 @@ class Server(Node):
                 sim.context.client.interval,
                 sim.context.client.handle_timeout
             )
+            sim.context.client.intervals_list.append(
+                sim.context.client.interval
+            )
 
     def handle_service_end(self, sim: Simulator, ping: Packet) -> None:
         """
-- 
2.43.0


From 1e1845fcbbbe0a6d88d113c6c7dada7207936ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:22 +0000
Subject: [PATCH 07/37] fix: count every pingpong ping without a pong as missed

---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index a9fed32..b866d97 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,8 +98,9 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
+        self.was_acknowledged = False
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
             sim.logger.debug("client timeout, sending ping #%d", self.number)
-- 
2.43.0


From 93488fcceca066546b54445328384172fb3cc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:49 +0000
Subject: [PATCH 08/37] fix: raise a real exception for a non-existing tag_time
 state

---
 pysim/models/tag_time/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/model.py b/pysim/models/tag_time/model.py
index 6ff5de1..31b2ed6 100644
--- a/pysim/models/tag_time/model.py
+++ b/pysim/models/tag_time/model.py
@@ -270,7 +270,7 @@ class State():
 
     def calculate_next_state(self, name):
         if name >= 4:
-            raise 'Такого состояния не существует!'
+            raise ValueError('Такого состояния не существует!')
         return name + 1
 
     def __str__(self):
-- 
2.43.0


From 5ffa6a5f2d70d7f5c36ecbd228e9608b1d9b5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:49 +0000
Subject: [PATCH 09/37] fix: take the chunk phase of scenario 3 from the first
 chunk

---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..738d279 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From e4421fe87d9a33c41bec99b886d4c49363dcde10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:49 +0000
Subject: [PATCH 10/37] fix: use the DR of the link in tag_time T1 and T2

---
 pysim/models/tag_time/calculate_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..7a98123 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,10 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(
+        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']
+    )
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From 26d23c3da3359b0ffe4cffa2e1ef2e9862f5aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 11/37] fix: accept byte collections as EPC and memory data

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..bd21c20 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+from collections.abc import Iterable
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From 52363398a7bdab36de8d47d6f8c91e1cf6b53d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 12/37] fix: use the default encoding in
 tag_preamble_duration()

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index bd21c20..7691c92 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From 7be104545b12e7bf8ff8affb77136becff0574d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 13/37] fix: pass delim, not TRcal, when computing the
 QueryAdjust duration

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 7691c92..c9359dd 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -883,10 +883,10 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
 
 
 def query_adjust_duration(
-    delim=None, tari=None, rtcal=None, session=None, updn=None
+    delim=None, tari=None, rtcal=None, session=None, updn=0
 ):
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 delim=delim)
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From 685129072f346a6b821834e117a697c9b8a6b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 14/37] fix: support QueryAdjust in command_duration()

---
 pysim/models/rfid/epcstd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index c9359dd..b93985b 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -850,12 +850,14 @@ def command_duration(command_code,
                      tari=None, rtcal=None, trcal=None, delim=None, dr=None,
                      m=None, trext=None, sel=None, session=None, target=None,
                      q=None, rn=None, bank=None, word_ptr=None,
-                     word_count=None, crc5=None, crc16=None):
+                     word_count=None, crc5=None, crc16=None, updn=0):
     if command_code is CommandCode.QUERY:
         return query_duration(tari, rtcal, trcal, delim, dr, m, trext, sel,
                               session, target, q, crc5)
     elif command_code is CommandCode.QUERY_REP:
         return query_rep_duration(tari, rtcal, trcal, delim, session)
+    elif command_code is CommandCode.QUERY_ADJUST:
+        return query_adjust_duration(delim, tari, rtcal, session, updn)
     elif command_code is CommandCode.ACK:
         return ack_duration(tari, rtcal, trcal, delim, rn)
     elif command_code is CommandCode.REQ_RN:
-- 
2.43.0


From 04d5845e30e2758adce36b3be58b053cca1bfe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 15/37] fix: time a transaction by its own duration, not by the
 previous one

---
 pysim/models/rfid/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..33df0b2 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -306,9 +306,10 @@ def finish_transaction(kernel, transaction):
         cmd_frame = _no_tag_response(kernel, ctx, reader)
 
     # Processing new command (reader frame)
-    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    ctx.transaction = transaction
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-- 
2.43.0


From 2ff864c37a226796011a7b036d67b26bda6c7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 16/37] fix: start tag replies T1 after the end of the command

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From cde4c8560e5a2dae2198d6a4f86a78629f032239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 17/37] fix: remember the response start event, so that turning
 off cancels it

---
 pysim/models/rfid/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 33df0b2..f5551c9 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,8 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -313,7 +314,8 @@ def finish_transaction(kernel, transaction):
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From 2901b96e9c380cfa89003577348dc71bb77e819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 18/37] fix: start only Query with the full preamble, other
 commands with frame-sync

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..8f6a6ce 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From bc493398298a7f338f6b33f79a0f6f0e7a597309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 19/37] fix: keep updn for the timeout of the sent QueryAdjust

---
 pysim/models/rfid/handlers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index f5551c9..581b692 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -202,7 +202,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -276,7 +275,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From d63ecf2639a07dc4885673a6761b39bc48ccb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 20/37] fix: call the existing powered_off_interval() in the
 OFF state

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 8f6a6ce..2716e8d 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -176,7 +176,7 @@ class _ReaderOFF(_ReaderState):
         super().__init__('OFF')
 
     def get_timeout(self, reader):
-        return reader.power_control_mode.power_off_interval(reader)
+        return reader.power_control_mode.powered_off_interval(reader)
 
     def enter(self, reader):
         # On turning off the reader must finish current round and power down.
-- 
2.43.0


From 119c3096d6f74df4ca6824e9a45a5c3f71a894be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 21/37] fix: keep the Q of a tag within 0..15 on QueryAdjust

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 2716e8d..d60a890 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1203,7 +1203,7 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
+            if 0 <= self.q + updn <= 15:
                 self.q = self.q + updn
                 self._slot_counter = np.random.randint(0, pow(2, self.q))
                 stat = self.kernel.context.statistics
-- 
2.43.0


From a0df6a2547ed4c68492293b405fbe72efbdcd119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 22/37] fix: switch the target every rounds_per_target rounds

---
 pysim/models/rfid/objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index d60a890..7a185a2 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -241,8 +241,7 @@ class _ReaderQUERY(_ReaderState):
                 reader.target = reader.target.invert()
                 reader.num_rounds_before_target_switch = \
                     reader.rounds_per_target
-            else:
-                reader.num_rounds_before_target_switch -= 1
+            reader.num_rounds_before_target_switch -= 1
 
         reader.last_rn = None
         cmd = std.Query(reader.dr, reader.tag_encoding, reader.trext,
-- 
2.43.0


From e2b64680d36b657e2654636a7263c7df4ef29cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 23/37] fix: use the configured BER distribution

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7a185a2..882cb21 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1522,7 +1522,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, distr=self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From 91fbd6e833db58ac8d24a381aee77cf504a0cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 24/37] fix: take TRext into account in the SNR of a tag reply

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 882cb21..3d5b174 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1516,7 +1516,7 @@ class Medium:
         # print('>>>>>>>>> blf, m, symbol', blf, m, symbol)
         snr = chan.snr_full(
             snr=raw_snr, miller=m.symbols_per_bit, symbol=symbol,
-            preamble=std.tag_preamble_duration(blf, m),
+            preamble=std.tag_preamble_duration(blf, m, tag.trext),
             bandwidth=self.bandwidth)
         # print('>>>>>>>>>> snr full', snr)
         return snr
-- 
2.43.0


From fa61eb722193614546adf3c017a66b15c39acb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 25/37] fix: pass session flag persistence settings to tags

---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..0c52767 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -324,6 +324,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
     generator.sensitivity = settings.tag_sensitivity
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.set_interval(
         settings.generation_interval[0],
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 3d5b174..2a2d023 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1352,6 +1352,11 @@ class Generator:
     modulation_loss = -12.0  # dBm
     sensitivity = -18.0  # dBm
 
+    # How long tags keep session flags without power
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
+
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
 
@@ -1398,6 +1403,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From 03bcd2b2e49acf2472d8341ce253eb42a767a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 26/37] fix: give every generated tag its own EPC and TID

---
 pysim/models/rfid/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 2a2d023..c4818a5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1359,6 +1359,8 @@ class Generator:
 
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
+        self._epc_suffix = None
+        self._tid_suffix = None
 
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
@@ -1384,8 +1386,9 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From a53bed04c8b91856d87a3adf37a03d0c080a0632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 27/37] fix: number tags from zero in every model

---
 pysim/models/rfid/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index c4818a5..7025f16 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -71,7 +71,7 @@ class Model:
     medium = None
     statistics = None
     update_interval = 0.001
-    next_tag_id = itertools.count()
+    next_tag_id = None
     max_tags_num = None
 
     def __init__(self):
@@ -82,6 +82,7 @@ class Model:
         self.medium = Medium()
         self.transaction = None
         self.num_tags_simulated = 0
+        self.next_tag_id = itertools.count()
 
 
 #############################################################################
-- 
2.43.0


From 639a165a17a4480523511461b3009144f0a946c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 28/37] fix: pass QueryAdjust options to the runs of a sweep

---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From 85b1df112cafac6c2714819b32cfbe4f13ab3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 29/37] fix: plot sweeps over tag_offset

---
 pysim/models/rfid/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..61cf69f 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -91,7 +91,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words', 'tag_offset': 'm'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
-- 
2.43.0


From f90f725da0161c479d1399e90a685ace8a3d6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 30/37] fix: survive the removal of a tag which is being read,
 and keep its read record

---
 pysim/models/rfid/handlers.py | 19 ++++++++++++-------
 pysim/models/rfid/objects.py  |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 581b692..04027a4 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -212,10 +212,13 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
     Обработка единственного ответа от метки после
     завершения транзакции считывателя
     '''
-    if isinstance(frame.reply, std.AckReply):
-        tag_read_record = (
-            ctx.statistics.get_tag_record(tag)
-            .new_tag_read_record(reader, reader.inventory_round.index))
+    # Метка могла исчезнуть до окончания транзакции, тогда её запись
+    # в статистике уже закрыта
+    tag_record = ctx.statistics.get_tag_record(tag)
+
+    if isinstance(frame.reply, std.AckReply) and tag_record is not None:
+        tag_read_record = tag_record.new_tag_read_record(
+            reader, reader.inventory_round.index)
         tag_read_record.tag_pos = np.array(tag.pos, copy=True)
         tag_read_record.reader_antenna_pos = np.array(
             reader.antenna.pos, copy=True)
@@ -224,7 +227,9 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
 
         # noinspection PyShadowingNames
         def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+            tag_record = statistics.get_tag_record(tag)
+            if tag_record is not None:
+                tag_record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
@@ -242,8 +247,8 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
             )
         )
 
-    if isinstance(frame.reply, std.ReadReply):
-        tag_read_record = ctx.statistics.get_tag_record(tag).tag_read_record
+    if isinstance(frame.reply, std.ReadReply) and tag_record is not None:
+        tag_read_record = tag_record.tag_read_record
         tag_read_record.read_tid = True
 
         kernel.logger.info(
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7025f16..542046c 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1868,6 +1868,7 @@ class Statistics:
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
+        record.close_tag_read_record()
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
-- 
2.43.0


From f7496f5da96fd48cda390affecc20839f97cdc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 31/37] fix: create the directory of sweep plots

---
 pysim/models/rfid/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index 61cf69f..0435d02 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 from tabulate import tabulate
 import time
 
@@ -106,4 +107,5 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From 6689989e213224d44428a4d2c8bbceb56f064603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 32/37] fix: print the model configuration when verbose output
 is asked for

---
 pysim/models/rfid/configurator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 0c52767..b5df125 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -332,6 +332,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         settings.generation_interval[0],
         *settings.generation_interval[1:])
 
+    if verbose:
+        print_model_settings(model)
+
     return model
 
 
@@ -355,7 +358,7 @@ def run_model(
     return result
 
 
-def print_model_settings(model: Model, kernel: sim.Kernel):
+def print_model_settings(model: Model):
     reader = model.reader
     medium = model.medium
     generator = model.generators[0]
@@ -418,9 +421,5 @@ def print_model_settings(model: Model, kernel: sim.Kernel):
         ('tag', 'modulation_loss', generator.modulation_loss),
         ('tag', 'sensitivity', generator.sensitivity),
         ('generator', 'num_tags', generator.max_tags_generated),
-        # --- Kernel ---
-        ('kernel', 'max_simulation_time', kernel.max_simulation_time),
-        ('kernel', 'max_real_time', kernel.max_real_time),
-        ('kernel', 'logger_level', kernel.logger.level),
     ]
     print(tabulate(rows))
-- 
2.43.0


From 69cef0cd3d10701178ec508001118976e3d70613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 33/37] fix: use the configured separator in log file names

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..1068f3d 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -200,7 +200,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From e8b04b4eddce2f868f94ad819ee194837580720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 34/37] fix: accept 0 as a run identifier

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 1068f3d..dc00d6f 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -143,7 +143,9 @@ class ModelLogger:
         """
         self._logger = logging.getLogger(model_name)
         self.time_getter = time_getter or (lambda: 0)
-        self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
+        self._run_id: int = (
+            run_id if run_id is not None else uuid.uuid4().int % 1_000_000
+        )
         self._setup_was_called: bool = False
     
     def set_time_getter(self, fn: Callable[[], float]) -> None:
-- 
2.43.0


From 3417dca0f3531edc2d0c0aa746ab66d4bbfa6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 35/37] fix: refuse to schedule events in the past and invalid
 handlers, as documented

---
 pysim/sim/simulator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index eebfa5b..99cb89f 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -338,9 +338,19 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
-        if delay is not None:
-            return self._queue.push(self._sim_time + delay, (handler, args, msg))
-        return None
+        if handler is None:
+            raise ValueError('обработчик события не задан')
+        if not callable(handler):
+            raise TypeError(f'обработчик {handler!r} нельзя вызвать')
+        if not isinstance(args, Iterable):
+            raise TypeError(f'аргументы {args!r} нельзя перебрать')
+        if delay is None:
+            return None
+        if delay < 0:
+            raise SchedulingInPastError(
+                f'нельзя запланировать событие в прошлом, delay = {delay}'
+            )
+        return self._queue.push(self._sim_time + delay, (handler, args, msg))
 
     def cancel(self, event_id: EventId) -> int:
         '''Отменить событие с идентификатором `event_id`'''
-- 
2.43.0


From 88d7a69d13dcb56eb7590793e9000cae925a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:34 +0000
Subject: [PATCH 36/37] fix: format records of custom levels in the colored
 console

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index dc00d6f..bb1aef0 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        log_fmt: logging.Formatter | None = self.FORMATS.get(record.levelno)
+        if log_fmt is None:  # нестандартный уровень - выводим без цвета
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From 9bc3a9519d47f76f1a9f4ab92c5d3b76ec722aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 37/37] fix: T4 bounds the wait after a Read command in
 slot_duration, not the command plus the wait

The slot duration of every other command is the command followed by the longer
of T1 + reply + T2 and T4; for access operations the command itself was put
into the comparison, so slots with short replies came out too short.
---
 pysim/models/rfid/epcstd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index b93985b..a492959 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1172,7 +1172,7 @@ def slot_duration(slot_type, access_ops=None, tari=None, rtcal=None,
                                        op.word_ptr, op.word_count, rn, crc16)
             t_read_reply = read_reply_duration(dr, trcal, m, trext,
                                                op.word_count)
-            t_access += np.maximum(t_read_cmd + t1_min + t_read_reply + t2, t4)
+            t_access += t_read_cmd + np.maximum(t1_min + t_read_reply + t2, t4)
         else:
             raise ValueError("unrecognized tag operation = {}".format(op))
 
-- 
2.43.0

