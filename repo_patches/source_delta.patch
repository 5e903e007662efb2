From 2dc95039cc0635f70e63e923663683c54139832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 01/27] fix: strip only the SCHEDULER_/ACCOUNT_ prefix from
 custom config names

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index df1dfd9..a05bb2d 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -38,7 +38,7 @@ def _load_config(path):
     account_configs = {}
     for _name in configs:
         if _name.startswith("ACCOUNT_"):
-            account_configs[_name.lstrip("ACCOUNT_")] = configs[_name]
+            account_configs[_name[len("ACCOUNT_"):]] = configs[_name]
     return account_configs
 
 
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index c5ff826..7fa99a8 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -44,7 +44,7 @@ def _load_config(path):
     scheduler_configs = {}
     for _name in configs:
         if _name.startswith("SCHEDULER_"):
-            scheduler_configs[_name.lstrip("SCHEDULER_")] = configs[_name]
+            scheduler_configs[_name[len("SCHEDULER_"):]] = configs[_name]
     return scheduler_configs
 
 
-- 
2.43.0


From 85d8e7820e52b7d7e20cf3672e3de806bd74182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 02/27] fix: take over cash figures that the trade gate reports
 as zero

---
 jqtrade/account/account.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 4e83498..fdb69d5 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -198,9 +198,9 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset") or self._total_assert
-            self._available_cash = cash_info.get("available_cash") or self._available_cash
-            self._locked_cash = cash_info.get("locked_cash") or self._locked_cash
+            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._available_cash = cash_info.get("available_cash", self._available_cash)
+            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
             # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
             # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-- 
2.43.0


From 2d6a7ab8ac4a0ff5d9a4c40164d46bf106f1f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 03/27] fix: pass the requested side on to the order

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index fdb69d5..a9bfacf 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -163,7 +163,7 @@ class Account(AbsAccount):
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-                          status=OrderStatus.new)
+                          status=OrderStatus.new, side=side)
         self._orders[order_id] = order_obj
         try:
             logger.info(f"提交订单，订单id：{order_id}，code：{code}，price：{style.price}，amount：{amount}，"
-- 
2.43.0


From d3a4b5f375c7674dc1a60888583de3de70e3ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 04/27] fix: accept positions without the optional side field

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index a9bfacf..d555dca 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -209,7 +209,7 @@ class Account(AbsAccount):
 
             positions = account_info["positions"]
             for _pos_info in positions:
-                _side = OrderSide.get_side(_pos_info.pop("side"))
+                _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                 _pos = Position(
                     code=_pos_info.pop("code"),
                     amount=_pos_info.pop("amount"),
-- 
2.43.0


From 8245aea80daa41faed4dd16560c32a4330c29d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 05/27] fix: sum position objects, not codes, in
 Portfolio.position_value

---
 jqtrade/account/portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/portfolio.py b/jqtrade/account/portfolio.py
index 7c84a57..44d3590 100644
--- a/jqtrade/account/portfolio.py
+++ b/jqtrade/account/portfolio.py
@@ -39,7 +39,7 @@ class Portfolio(object):
 
     @property
     def position_value(self):
-        return sum(_pos.position_value for _pos in self.long_positions)
+        return sum(_pos.position_value for _pos in self.long_positions.values())
 
     def __str__(self):
         return f"Portfolio(total_assert={self.total_value}, available_assert={self.available_cash}, " \
-- 
2.43.0


From 08da0c9a4c488d4e40302523e27144a8ffea6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 06/27] fix: do not count the sub-second part twice in
 dt_to_milliseconds

---
 jqtrade/common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/common/utils.py b/jqtrade/common/utils.py
index c846a1b..492b4a3 100644
--- a/jqtrade/common/utils.py
+++ b/jqtrade/common/utils.py
@@ -55,7 +55,7 @@ def parse_time(t):
 
 
 def dt_to_milliseconds(dt):
-    return int(dt.timestamp() * 1000 + dt.microsecond / 1000)
+    return int(dt.replace(microsecond=0).timestamp()) * 1000 + dt.microsecond // 1000
 
 
 def milliseconds_to_dt(milliseconds):
-- 
2.43.0


From 246d1e4611364657eebb552a516dc4199d408f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 07/27] fix: run the function given to run_daily, not a
 namesake in the strategy module

---
 jqtrade/scheduler/strategy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f29ef1..ffe1e63 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -99,7 +99,7 @@ class Strategy(object):
         for _desc in self._schedules:
             logger.info(f"设置定时任务: {_desc}")
 
-            _callback = self._get_handle(_desc['name'])
+            _callback = _desc['func']
             _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
 
             event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
@@ -137,11 +137,12 @@ class Strategy(object):
 
         time = self.TIME_DICT.get(time) or time
 
-        module, func = self._check_handle(func)
+        module, name = self._check_handle(func)
 
         desc = {
             'module': module,
-            'name': func,
+            'name': name,
+            'func': func,
             'time': time,
         }
         self._schedules.append(desc)
-- 
2.43.0


From a481ee176854cb12b212df3e18f45b98253af415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 08/27] fix: require the dot between security number and
 exchange suffix

---
 jqtrade/account/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 05e880a..6bbf2c8 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -11,7 +11,7 @@ logger = sys_logger.getChild("account.api")
 
 
 def _check_code(code):
-    if not (code[-4:] in ("XSHE", "XSHG") and code[:-5].isdigit()):
+    if not (code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit()):
         raise InvalidParam(f"标的代码错误: {code}")
 
 
-- 
2.43.0


From aca23752309c0a0f55ff09df1aa1da7917861210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 09/27] fix: allow "=" inside environment variable values

---
 jqtrade/scheduler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 77ac4c2..3ecfca2 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -55,7 +55,7 @@ def parse_env(env, sep=";"):
     envs = env.split(sep)
     for _env in envs:
         _env = _env.strip()
-        _k, _v = _env.split("=")
+        _k, _v = _env.split("=", 1)
         _k = _k.strip()
         _v = _v.strip()
         ret[_k] = _v
-- 
2.43.0


From 844ca3bbd88308538fa392222aaf471c748ced11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 10/27] fix: reject a time offset followed by a newline

---
 jqtrade/scheduler/event_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index d35df7f..e926a3a 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -241,7 +241,7 @@ class TimeExprParser(object):
 
     @staticmethod
     def _parse_offset(offset):
-        m = re.match(r'^(([0-9]{1,2}[hms]){1,3})$', offset)
+        m = re.fullmatch(r'([0-9]{1,2}[hms]){1,3}', offset)
         if m is None:
             raise InvalidParam(f'invalid time offset: {offset}')
         ret = re.findall(r'([0-9]{1,2})([hms])', offset)
-- 
2.43.0


From f2ca39e5b989fb861a8a504a1827f3fd9a6fd590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 11/27] fix: provide the documented UserPosition.code and
 locked_amount

---
 jqtrade/account/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 6bbf2c8..ba72c0c 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -283,10 +283,16 @@ class UserPosition(object):
     def security(self):
         return self.__position.code
 
+    code = security
+
     @property
     def total_amount(self):
         return self.__position.amount
 
+    @property
+    def locked_amount(self):
+        return self.__position.locked_amount
+
     @property
     def closeable_amount(self):
         return self.__position.available_amount
-- 
2.43.0


From 74a79fe7d1af2d13d39aac4a80d8ad59694d4503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 12/27] fix: keep reading broker files past blank, short and
 half-written lines

---
 jqtrade/account/trade_gate.py | 63 ++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 91bbf13..1e656ee 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -396,21 +396,27 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r") as rf:
+        with open(self._order_result_csv, "rb") as rf:
             rf.seek(pre_order_result_offset)
             while True:
-                try:
-                    _line = rf.readline().strip()
-                    if not _line:
-                        break
+                _raw = rf.readline()
+                if not _raw:
+                    break
 
-                    if _line.startswith(self.ORDER_RESULT_COLS[0]):
-                        self._order_result_offset = rf.tell()
+                # 最后一行可能还没写完，此时不推进offset，等下次同步时重新读取该行
+                _completed = _raw.endswith(b"\n")
+                try:
+                    _line = self._decode_line(_raw, _completed)
+                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):
+                        if _completed:
+                            self._order_result_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
                     if len(_items) < len(self.ORDER_RESULT_COLS):
-                        break
+                        if not _completed:
+                            break
+                        raise ParserError(f"列数不足：{_line}")
 
                     _order_result_line = self.ORDER_RESULT_CLS(*_items)
                     if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
@@ -418,8 +424,6 @@ class AnXinDMATradeGate(AbsTradeGate):
                         if self._has_synced:
                             logger.info(f"撤单失败，被撤单id：{_order_result_line.custBatchNo}，"
                                         f"失败原因：{_order_result_line.errorMsg}")
-                        self._order_result_offset = rf.tell()
-                        continue
 
                     if _order_result_line.resultType == self.RESULT_TYPE_ORDER \
                             and _order_result_line.status == self.RESULT_REJECT_STATUS:
@@ -427,31 +431,37 @@ class AnXinDMATradeGate(AbsTradeGate):
                         if _order:
                             _order["status"] = OrderStatus.rejected.value
                             _order["err_msg"] = _order_result_line.errorMsg
-                    self._order_result_offset = rf.tell()
-                except EOFError:
-                    pass
+                    if _completed:
+                        self._order_result_offset = rf.tell()
                 except Exception as e:
+                    if not _completed:
+                        break
                     logger.exception(f"{self._order_result_csv}中有一笔订单状态信息同步失败，error={e}")
                     if self._ignore_error_line:
                         self._order_result_offset = rf.tell()
                     else:
                         raise
 
-        with open(self._order_update_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_update_csv, "rb") as rf:
             rf.seek(pre_order_update_offset)
             while True:
-                try:
-                    _line = rf.readline().strip()
-                    if not _line:
-                        break
+                _raw = rf.readline()
+                if not _raw:
+                    break
 
-                    if _line.startswith(self.ORDER_LINE_COLS[0]):
-                        self._order_update_offset = rf.tell()
+                _completed = _raw.endswith(b"\n")
+                try:
+                    _line = self._decode_line(_raw, _completed)
+                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
+                        if _completed:
+                            self._order_update_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
                     if len(_items) < len(self.ORDER_LINE_COLS):
-                        break
+                        if not _completed:
+                            break
+                        raise ParserError(f"列数不足：{_line}")
 
                     order_line = self.ORDER_LINE_CLS(*_items)
 
@@ -461,10 +471,11 @@ class AnXinDMATradeGate(AbsTradeGate):
                     self._update_order(self._orders[order_line.custBatchNo], order_line)
 
                     # 记录下当前成功解析了的订单的位置
-                    self._order_update_offset = rf.tell()
-                except EOFError:
-                    break
+                    if _completed:
+                        self._order_update_offset = rf.tell()
                 except Exception as e:
+                    if not _completed:
+                        break
                     logger.exception(f"{self._order_update_csv}中有一笔订单状态信息同步失败, error={e}")
                     if self._ignore_error_line:
                         self._order_update_offset = rf.tell()
@@ -479,6 +490,10 @@ class AnXinDMATradeGate(AbsTradeGate):
             data.append(_order.copy())
         return data
 
+    def _decode_line(self, raw, completed):
+        # 未写完的行末尾可能是被截断的多字节字符，忽略即可
+        return raw.decode(self._file_coding, "strict" if completed else "ignore").strip()
+
     def _update_order(self, order, order_line):
         order["status"] = self._parse_status(order_line.status).value
         order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-- 
2.43.0


From 0a12d0317b50601acdf374090044e857f4096ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 13/27] fix: follow the date change of broker files and of the
 order cache

---
 jqtrade/account/trade_gate.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 1e656ee..d4a30ca 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -213,7 +213,6 @@ class AnXinDMATradeGate(AbsTradeGate):
 
         # 持久化存储策略与订单映射关系，用于重启加载恢复订单
         self._data_dir = None
-        self._data_file = None
 
         # 文件单目录
         self._order_dir = None
@@ -222,6 +221,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._orders = {}
         self._order_update_offset = 0
         self._order_result_offset = 0
+        self._offset_date = None
 
         self._has_synced = False
 
@@ -390,6 +390,13 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise ValueError(f"invalid code: {code}")
 
     def sync_orders(self):
+        # 文件单按日期命名，换日后需要从新文件的起始位置开始读取
+        today = self._date
+        if self._offset_date != today:
+            self._offset_date = today
+            self._order_update_offset = 0
+            self._order_result_offset = 0
+
         pre_order_update_offset = self._order_update_offset
         pre_order_result_offset = self._order_result_offset
 
@@ -548,7 +555,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        ctx = Context.get_instance()
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
 
         self._data_dir = os.path.join(runtime_dir, "data")
@@ -556,8 +562,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if not os.path.exists(self._data_dir):
             os.makedirs(self._data_dir)
 
-        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
-
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
 
@@ -573,6 +577,11 @@ class AnXinDMATradeGate(AbsTradeGate):
     def _date(self):
         return Context.get_instance().current_dt.date()
 
+    @property
+    def _data_file(self):
+        ctx = Context.get_instance()
+        return os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
+
     @property
     def _order_csv(self):
         return os.path.join(self._order_dir, f"algoOrder_{self._date.strftime('%Y%m%d')}.csv")
-- 
2.43.0


From 7dde5745015bc9990050810b813f9bf2e7bcd53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 14/27] fix: decide on the header and flush the line while the
 file lock is held

---
 jqtrade/account/trade_gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index d4a30ca..531df03 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -290,9 +290,11 @@ class AnXinDMATradeGate(AbsTradeGate):
             with open(file, mode, encoding=self._file_coding) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
+                    fp.seek(0, os.SEEK_END)     # 等锁期间其他进程可能已写入
                     if fp.tell() == 0 and header:
                         line = header + os.linesep + line
                     fp.write(line)
+                    fp.flush()      # 释放锁之前落盘
                     break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                     if time.time() - start >= self._wait_lock_time_out:
-- 
2.43.0


From e382c84d387186e7d3a358b1bdc00cd6a7945a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 15/27] fix: cover the whole day with the sync timer after the
 first day

---
 jqtrade/account/account.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index d555dca..d5b9598 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -132,7 +132,8 @@ class Account(AbsAccount):
         sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))
         sync_period = self._options.get("sync_period", config.SYNC_PERIOD)
         if not sync_period:
-            current = now + datetime.timedelta(seconds=sync_internal)
+            # 从零点开始生成，保证跨日运行时次日全天都会同步，当日启动之前的事件会被event_source过滤掉
+            current = now.replace(hour=0, minute=0, second=0)
             while current <= now.replace(hour=23, minute=59, second=59):
                 event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                 current += datetime.timedelta(seconds=sync_internal)
-- 
2.43.0


From 7a9f5d9dfe0910c4a8dd61c29a05353d1333ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 16/27] fix: do not repeat a day's events when the event
 horizon is extended

---
 jqtrade/scheduler/event_source.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index e926a3a..040ad08 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -42,6 +42,9 @@ class EventSource(object):
 
         self._has_gen_his_days = False
 
+        # 已经生成过事件的最近日期
+        self._last_day = None
+
     def setup(self):
         if self._start is None or not config.ENABLE_HISTORY_START:
             self._start = datetime.datetime.now()
@@ -56,6 +59,7 @@ class EventSource(object):
 
         self._events = []
         self._has_gen_his_days = False
+        self._last_day = None
         self._days = self._get_days()
         self._need_regenerate_events = False
 
@@ -71,6 +75,9 @@ class EventSource(object):
             count = (end - start).days + 1 if end else count
         else:
             start = datetime.date.today()
+            if self._last_day:
+                # 避免重复生成同一天的事件
+                start = max(start, self._last_day + datetime.timedelta(days=1))
 
         for _delta in range(count):
             days.append(start + datetime.timedelta(days=_delta))
@@ -126,6 +133,7 @@ class EventSource(object):
                 break
 
             day = self._days.pop(0)
+            self._last_day = day
             self.add_daily_events(day)
 
         self._events.sort(key=lambda e: e[0])
-- 
2.43.0


From 96f40bf2762afc350fc5d4c227116e199e8b49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 17/27] fix: never reuse the id of an existing order

---
 jqtrade/account/account.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index d5b9598..7f7c92f 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -161,6 +161,8 @@ class Account(AbsAccount):
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
+        while order_id in self._orders:
+            order_id = str(generate_unique_number())
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-- 
2.43.0


From 2f7d604974c3974da093f65a7147f4fefb15519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 18/27] fix: do not leave an order that could not be submitted
 in status new

---
 jqtrade/account/account.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 7f7c92f..e9a172d 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -176,6 +176,7 @@ class Account(AbsAccount):
             return order_id
         except Exception as e:
             logger.exception(f"内部下单异常，code={code}, amount={amount}, style={style}, side={side}, error={e}")
+            order_obj.on_rejected(str(e))
 
     def cancel_order(self, order_id):
         try:
-- 
2.43.0


From c5155fc116a108562e16deb8581d382e0eca9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 19/27] fix: recognise task processes by their arguments, in
 every spelling start_task accepts

---
 jqtrade/scheduler/utils.py | 44 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 3ecfca2..4edd045 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -1,22 +1,39 @@
 # -*- coding: utf-8 -*-
+import argparse
+
+
+class _TaskArgumentParser(argparse.ArgumentParser):
+    def error(self, message):
+        raise ValueError(message)
 
 
 def parse_task_info(cmd_line):
-    info = {"debug": False, "env": None, "out": None}
-    for _idx, _item in enumerate(cmd_line):
-        if _item in ("-c", "--code"):
-            info["code"] = cmd_line[_idx+1]
-        elif _item in ("-o", "--out"):
-            info["out"] = cmd_line[_idx + 1]
-        elif _item in ("-n", "--name"):
-            info["name"] = cmd_line[_idx + 1]
-        elif _item in ("-e", "--env"):
-            info["env"] = cmd_line[_idx + 1]
-        elif _item == "--debug":
-            info["debug"] = True
+    """ 从任务进程的命令行中解析任务信息，选项写法与start_task命令保持一致（支持-nX、--name=X、选项缩写等） """
+    parser = _TaskArgumentParser(add_help=False)
+    parser.add_argument("-n", "--name")
+    parser.add_argument("-c", "--code")
+    parser.add_argument("-o", "--out")
+    parser.add_argument("-e", "--env")
+    parser.add_argument("--config")
+    parser.add_argument("--debug", action="store_true")
+
+    args = list(cmd_line)
+    if "start_task" in args:
+        args = args[args.index("start_task") + 1:]
+    options, _ = parser.parse_known_args(args)
+
+    info = vars(options)
+    info.pop("config")
     return info
 
 
+def _is_task_cmd(cmd_line):
+    """ 判断命令行是否是 jqtrade start_task 命令，只是参数中恰好出现这些字样的进程不算（如：tail -f jqtrade_start_task.log） """
+    if "start_task" not in cmd_line:
+        return False
+    return any("jqtrade" in _arg for _arg in cmd_line[:cmd_line.index("start_task")])
+
+
 def get_activate_task_process():
     active_tasks = []
 
@@ -26,8 +43,7 @@ def get_activate_task_process():
         parent_pid = []
         for _p in psutil.process_iter():
             try:
-                _cmd_line = " ".join(_p.cmdline())
-                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
+                if _is_task_cmd(_p.cmdline()):
                     task_process.append(_p)
                     parent_pid.append(_p.ppid())
             except psutil.AccessDenied:
-- 
2.43.0


From 7f6901dcab14172ff56f6869338828c87cda97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 20/27] fix: continue with the day after the last generated
 one, without leaving days out

---
 jqtrade/scheduler/event_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 040ad08..f5c8739 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -76,8 +76,8 @@ class EventSource(object):
         else:
             start = datetime.date.today()
             if self._last_day:
-                # 避免重复生成同一天的事件
-                start = max(start, self._last_day + datetime.timedelta(days=1))
+                # 紧接着已生成过的最近日期继续生成，避免重复生成同一天的事件，也避免遗漏
+                start = self._last_day + datetime.timedelta(days=1)
 
         for _delta in range(count):
             days.append(start + datetime.timedelta(days=_delta))
-- 
2.43.0


From fb179ab62cfb167b6f745288a79c89a76788dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 21/27] fix: refuse run_daily and set_options after an
 initialisation that failed

---
 jqtrade/scheduler/strategy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index ffe1e63..a98b66d 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -69,8 +69,10 @@ class Strategy(object):
             # 只允许在process_initialize中调用run_daily设置每日定时任务
             self._is_scheduler_allowed = True
             logger.info("执行用户process_initialize函数")
-            self._user_module.process_initialize(self._user_ctx)
-            self._is_scheduler_allowed = False
+            try:
+                self._user_module.process_initialize(self._user_ctx)
+            finally:
+                self._is_scheduler_allowed = False
         else:
             raise TaskError("策略代码中未定义process_initialize函数")
 
-- 
2.43.0


From b97e25c71ec1be964d8f1cf5d96e0e7a0eefcf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 22/27] fix: raise the error of a failed task whatever its
 truth value

---
 jqtrade/scheduler/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 3e826ac..e862282 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -51,7 +51,7 @@ class EventLoop(object):
         self.setup()
         self._uvloop.run()
 
-        if self._exception:
+        if self._exception is not None:
             raise self._exception
 
     def stop(self):
-- 
2.43.0


From a7edf2453a11e5dae9d8a16d7533f864c4f5441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:16 +0000
Subject: [PATCH 23/27] fix: tasks that end meanwhile do not keep stop_task and
 start_task from the others

---
 jqtrade/__main__.py         | 31 ++++++++++++++++++++-----------
 jqtrade/scheduler/runner.py |  6 +++---
 jqtrade/scheduler/utils.py  | 16 ++++++++++++++--
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0d7fba2..42f4563 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -56,6 +56,7 @@ def get_tasks(options):
     """
     python -m quant_engine get_tasks
     """
+    import psutil
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -65,7 +66,10 @@ def get_tasks(options):
 
     print("当前活跃的实盘任务进程".center(30, "-"))
     for _p in active_tasks:
-        _cmd = _p.cmdline()
+        try:
+            _cmd = _p.cmdline()
+        except psutil.NoSuchProcess:
+            continue
         _task_info = parse_task_info(_cmd)
         _task_info["pid"] = _p.pid
         _task_info["cmd"] = _cmd
@@ -84,7 +88,8 @@ def stop_task(options):
     python -m quant_engine stop_task -p 12345
     python -m quant_engine stop_task --all
     """
-    from .scheduler.utils import get_activate_task_process, parse_task_info
+    import psutil
+    from .scheduler.utils import get_activate_task_process, get_task_info
 
     active_tasks = get_activate_task_process()
 
@@ -94,13 +99,17 @@ def stop_task(options):
     killed_pid = []
 
     def _kill(_p, force=False):
-        if force:
-            _p.kill()
-            print(f"强制停止进程 {_p.pid}")
-        else:
-            import signal
-            _p.send_signal(signal.SIGTERM)
-            print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        try:
+            if force:
+                _p.kill()
+                print(f"强制停止进程 {_p.pid}")
+            else:
+                import signal
+                _p.send_signal(signal.SIGTERM)
+                print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        except psutil.NoSuchProcess:
+            # 进程已自行退出，继续处理其他任务
+            return
         killed_pid.append(_p.pid)
 
     if options.all:
@@ -113,8 +122,8 @@ def stop_task(options):
                 break
     else:
         for _p in active_tasks:
-            _task_info = parse_task_info(_p.cmdline())
-            if options.name == _task_info["name"]:
+            _task_info = get_task_info(_p)
+            if _task_info and options.name == _task_info["name"]:
                 _kill(_p, options.force)
 
     if not killed_pid:
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index cd20006..d727afd 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -11,7 +11,7 @@ from .event_source import EventSourceScheduler
 from .loop import EventLoop
 from .bus import EventBus
 from .context import Context
-from .utils import get_activate_task_process, parse_task_info, parse_env
+from .utils import get_activate_task_process, get_task_info, parse_env
 from .config import setup_scheduler_config, get_config as get_scheduler_config
 
 
@@ -26,8 +26,8 @@ def _exist_repeated_task(task_name):
     for _task in active_tasks:
         if _task.pid in (current_pid, parent_pid):
             continue
-        _task_info = parse_task_info(_task.cmdline())
-        if task_name == _task_info["name"]:
+        _task_info = get_task_info(_task)
+        if _task_info and task_name == _task_info["name"]:
             return True
 
 
diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 4edd045..60f551e 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -20,13 +20,25 @@ def parse_task_info(cmd_line):
     args = list(cmd_line)
     if "start_task" in args:
         args = args[args.index("start_task") + 1:]
-    options, _ = parser.parse_known_args(args)
+    try:
+        options, _ = parser.parse_known_args(args)
+    except ValueError:
+        options = parser.parse_args([])
 
     info = vars(options)
     info.pop("config")
     return info
 
 
+def get_task_info(process):
+    """ 获取运行中任务进程的任务信息，进程已退出时返回None """
+    import psutil
+    try:
+        return parse_task_info(process.cmdline())
+    except psutil.NoSuchProcess:
+        return None
+
+
 def _is_task_cmd(cmd_line):
     """ 判断命令行是否是 jqtrade start_task 命令，只是参数中恰好出现这些字样的进程不算（如：tail -f jqtrade_start_task.log） """
     if "start_task" not in cmd_line:
@@ -44,8 +56,8 @@ def get_activate_task_process():
         for _p in psutil.process_iter():
             try:
                 if _is_task_cmd(_p.cmdline()):
-                    task_process.append(_p)
                     parent_pid.append(_p.ppid())
+                    task_process.append(_p)
             except psutil.AccessDenied:
                 if 'python' in _p.name():
                     raise
-- 
2.43.0


From fd93e5c47fbe2245158be28e3e3cfc137ce0e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 24/27] fix: a process that ends while its name is asked does
 not keep stop_task from the tasks

---
 jqtrade/scheduler/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 60f551e..51ad9f9 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -59,7 +59,11 @@ def get_activate_task_process():
                     parent_pid.append(_p.ppid())
                     task_process.append(_p)
             except psutil.AccessDenied:
-                if 'python' in _p.name():
+                try:
+                    is_python = 'python' in _p.name()
+                except psutil.NoSuchProcess:
+                    continue
+                if is_python:
                     raise
                 else:
                     # windows有一些系统进程，即使有管理员权限，p.cmdline仍会报错，这部分进程忽略
-- 
2.43.0


From 8c07ee1bd651c288ad58c9b72705b9ad49681880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 25/27] fix: reject a time offset that gives a unit twice
 instead of dropping one of them

---
 jqtrade/scheduler/event_source.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index f5c8739..048f131 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -252,8 +252,10 @@ class TimeExprParser(object):
         m = re.fullmatch(r'([0-9]{1,2}[hms]){1,3}', offset)
         if m is None:
             raise InvalidParam(f'invalid time offset: {offset}')
-        ret = re.findall(r'([0-9]{1,2})([hms])', offset)
-        ret = dict((v, int(k)) for k, v in ret)
+        units = re.findall(r'([0-9]{1,2})([hms])', offset)
+        ret = dict((v, int(k)) for k, v in units)
+        if len(ret) != len(units):
+            raise InvalidParam(f'invalid time offset: {offset}')
         return datetime.timedelta(hours=ret.get('h', 0), minutes=ret.get('m', 0), seconds=ret.get('s', 0))
 
     @classmethod
-- 
2.43.0


From 1735f65a85fdbdf46576b23ea58967c2ef548319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 26/27] fix: a broker record that cannot be read in full leaves
 the order as it was

---
 jqtrade/account/trade_gate.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 531df03..45a5eeb 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -504,15 +504,18 @@ class AnXinDMATradeGate(AbsTradeGate):
         return raw.decode(self._file_coding, "strict" if completed else "ignore").strip()
 
     def _update_order(self, order, order_line):
-        order["status"] = self._parse_status(order_line.status).value
-        order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-                                                           "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
-        order["confirm_id"] = order_line.orderNo
-        order["filled_amount"] = int(order_line.filledQty)
-        order["deal_balance"] = round(float(order_line.filledAmt), 4)
-        order["canceled_amount"] = int(order_line.cancelQty)
-        order["avg_cost"] = round(float(order_line.avgPrice), 3)
-        order["err_msg"] = order_line.text
+        # 先解析全部字段再更新，解析失败时订单保持原状
+        order.update({
+            "status": self._parse_status(order_line.status).value,
+            "entrust_time": datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
+                                                       "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f"),
+            "confirm_id": order_line.orderNo,
+            "filled_amount": int(order_line.filledQty),
+            "deal_balance": round(float(order_line.filledAmt), 4),
+            "canceled_amount": int(order_line.cancelQty),
+            "avg_cost": round(float(order_line.avgPrice), 3),
+            "err_msg": order_line.text,
+        })
 
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
-- 
2.43.0


From b0ab7de113b6c231155995374916511f41658ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 27/27] fix: a balance file without the account's row is an
 error, not a report without cash

---
 jqtrade/account/trade_gate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 45a5eeb..45ff962 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -329,6 +329,9 @@ class AnXinDMATradeGate(AbsTradeGate):
                 "locked_cash": round(float(_asset_info.currentBalance) - float(_asset_info.enabledBalance), 4),
             }
 
+        if "cash" not in data:
+            raise AnXinDMAError(f"文件单中未查询到账户{acct_no}的资产数据")
+
         self.check_file_exists(self._position_info_csv)
 
         data["positions"] = []
-- 
2.43.0

