From 24364767af5f07bbde4b53710871bab6eabd67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 01/35] fix: start every Calculation from an empty series so
 recalculating does not append duplicates

---
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 channel/UlcerIndex.go                   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/Ma.go                             | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/Vortex.go                         | 1 +
 volume/AccumulationDistribution.go      | 1 +
 volume/ChaikinMoneyFlow.go              | 1 +
 volume/EaseOfMovement.go                | 1 +
 volume/ForceIndex.go                    | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 volume/NegativeVolumeIndex.go           | 1 +
 volume/Obv.go                           | 1 +
 volume/VolumePriceTrend.go              | 1 +
 volume/Vwma.go                          | 1 +
 26 files changed, 26 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..4ce6a5b 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -49,6 +49,7 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..f0eb736 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -50,6 +50,7 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..7df5029 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -46,6 +46,7 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..d1ebf9c 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -34,6 +34,7 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..72c1c5a 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -49,6 +49,7 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
+	e.data = nil
 
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..4307d64 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -59,6 +59,7 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
+	e.data = nil
 
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..82d71c7 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -53,6 +53,7 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
+	e.data = nil
 
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..9dff989 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -47,6 +47,7 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
+	e.data = nil
 
 	period := e.Period
 	smooth := e.Smooth
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..8697b12 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -48,6 +48,7 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..766a86b 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -46,6 +46,7 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..4cef15d 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -60,6 +60,7 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
+	e.data = nil
 
 	close := e.kline.GetOHLC().Close
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..23347ab 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -68,6 +68,7 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
+	e.data = nil
 
 	hlc3 := e.kline.HLC3()
 
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..e4167d3 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -47,6 +47,7 @@ func (e *Ma) GetData() []MaData {
 
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
+	e.data = nil
 
 	closes := e.kline.GetOHLC().Close
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..f452e15 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -38,6 +38,7 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
+	e.data = nil
 
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..fb1b1e2 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -47,6 +47,7 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
+	e.data = nil
 
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..3bf31e7 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -57,6 +57,7 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..11d71ba 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -39,6 +39,7 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
+	e.data = nil
 
 	period := e.Period
 
diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..f380d26 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -45,6 +45,7 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..cb5313e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -50,6 +50,7 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..0ce63de 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -46,6 +46,7 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..2674839 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -42,6 +42,7 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..d558733 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -49,6 +49,7 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..3fb8a3f 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -44,6 +44,7 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..44c3e4f 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -33,6 +33,7 @@ func NewObv(klineItem *klines.Item) *Obv {
 
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..a487ab1 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -42,6 +42,7 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..cde0592 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -45,6 +45,7 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
-- 
2.43.0


From d72e2b059e980dc68780d13721afbc9d8d2599c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 02/35] fix: give the first point of UTBot,
 PivotPointSuperTrend and BreakoutProbability its candle's time

---
 trend/BreakoutProbability.go  | 3 +++
 trend/PivotPointSuperTrend.go | 3 +++
 trend/UTBot.go                | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..a9b9617 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -109,6 +109,9 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 	}()
 
 	e.data = make([]BreakoutProbabilityData, len(closes))
+	if len(closes) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..3762afe 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -89,6 +89,9 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 	}()
 
 	e.data = make([]PivotPointSuperTrendData, len(closes))
+	if len(closes) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
 
 	for i := 1; i < len(closes); i++ {
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..72954bf 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -73,6 +73,10 @@ func (e *UTBot) Calculation() *UTBot {
 	e.data = make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
+			e.data[i] = UTBotData{
+				Time:  time.Unix(times[i], 0),
+				Close: close,
+			}
 			continue
 		}
 		// var prevClose = closeing[i-1]
-- 
2.43.0


From 142271fa93ccbe54b22e653e43a278338df37f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 03/35] fix: Rma stores one point per candle instead of
 appending after as many zero points

---
 trend/Rma.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..be0ae2e 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -43,10 +43,10 @@ func (e *Rma) Calculation() *Rma {
 	e.data = make([]RmaData, len(rma))
 	for i, value := range rma {
 
-		e.data = append(e.data, RmaData{
+		e.data[i] = RmaData{
 			Time:  time.Unix(e.kline.Candles[i].TimeUnix, 0),
 			Value: value,
-		})
+		}
 	}
 
 	return e
-- 
2.43.0


From 7aabd808b89f6685f209e1ec78a55a8bc6b7306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 04/35] fix: AnalysisSide reports Hold, not Buy, for bars
 without enough history

---
 channel/Boll.go                         | 1 +
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 oscillator/AbsolutePriceOscillator.go   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/EMAVegas.go                       | 2 ++
 trend/Kdj.go                            | 1 +
 trend/Macd.go                           | 1 +
 trend/PivotPointSuperTrend.go           | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/SuperTrend.go                     | 1 +
 trend/UTBot.go                          | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 23 files changed, 24 insertions(+)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..fc2ab00 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -130,6 +130,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 4ce6a5b..277e77e 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -85,6 +85,7 @@ func (e *DonchianChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f0eb736..76b5565 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -90,6 +90,7 @@ func (e *KeltnerChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..0820641 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -60,6 +60,7 @@ func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index d1ebf9c..ed107df 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -64,6 +64,7 @@ func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index 72c1c5a..ed8dda2 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -79,6 +79,7 @@ func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 4307d64..6f88fc1 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -120,6 +120,7 @@ func (e *IchimokuCloud) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < e.ConversionPeriod {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 82d71c7..08d6180 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -91,6 +91,7 @@ func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index 9dff989..632c2f9 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -88,6 +88,7 @@ func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 8697b12..9fd07a5 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -95,6 +95,7 @@ func (e *StochasticOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 766a86b..d17c5a2 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -85,6 +85,7 @@ func (e *WilliamsR) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index 4cef15d..8c57991 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -86,6 +86,7 @@ func (e *AiCoinCCI) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 23347ab..870dcd0 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -157,6 +157,7 @@ func (e *Cci) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..98bfaf7 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -108,6 +108,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	for i := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var item = e.data[i]
@@ -115,6 +116,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 		var t1, d1 bool
 
 		if (i - 10 - 1) < 0 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..7e8c536 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -75,6 +75,7 @@ func (e *Kdj) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..39875a5 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -96,6 +96,7 @@ func (e *Macd) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index 3762afe..fc64faf 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -162,6 +162,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index f452e15..69f0b8d 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -62,6 +62,7 @@ func (e *Rsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index fb1b1e2..1d48361 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -77,6 +77,7 @@ func (e *StochRsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 3bf31e7..ec961af 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -190,6 +190,7 @@ func (e *StochasticHeat) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..1086142 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -177,6 +177,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	sides := make([]utils.Side, len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index 72954bf..25ed93d 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -114,6 +114,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var close = v.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index d558733..c8f6a31 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -99,6 +99,7 @@ func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
-- 
2.43.0


From 95085f7c3c24e5044251c86f32c90bf0bba61f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 05/35] fix: Boll sell signal compares the previous close with
 the previous lower band

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index fc2ab00..7b6a4d1 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -140,7 +140,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From 008d4532363dbfbb580ec1b4b50bd7341b370fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 06/35] fix: Boll bands use the configured width (PeriodK), as
 documented

---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 7b6a4d1..8e91e89 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var width = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, width)
+	var lower = ta.Subtract(middle, width)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From f5f4fdb29779f459f4736c9e518ad77bef44cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 07/35] fix: Kdj list accessors calculate the series first when
 needed

---
 trend/Kdj.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 7e8c536..edab3f9 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -105,6 +105,9 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -114,6 +117,9 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -123,6 +129,9 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From 6de50357f7267a4b5fe8ae58d10908d84c9edd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 08/35] fix: Atr true range takes the absolute distance to the
 previous close

---
 trend/Atr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..3729665 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -56,7 +56,7 @@ func (e *Atr) Calculation() *Atr {
 		if i != 0 {
 			prevClose = closes[i-1]
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
+		tr[i] = math.Max(highs[i]-lows[i], math.Max(math.Abs(highs[i]-prevClose), math.Abs(lows[i]-prevClose)))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 2264f8e8ff290e8e576844a0f950a8226e7a1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 09/35] fix: Ichimoku conversion line takes both extremes over
 the conversion period

---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 6f88fc1..fb5dd68 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -70,7 +70,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From 29e059e721ef25b245651e413ad310a61d7d7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 10/35] fix: SortCandlesByTimestamp sorts descending when asked
 to, ascending otherwise

---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..ec5a278 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -192,10 +192,10 @@ func (e *Item) RemoveDuplicates() {
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
 	if desc {
-		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
+		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
 		return
 	}
-	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
+	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 }
 
 // addPadding 插入填充时间对齐，当交易所不提供所有数据时
-- 
2.43.0


From ac50d9c1502f10822fe981e0e699c1ec62123d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 11/35] fix: Heikin-Ashi low is the minimum of its parts

---
 utils/klines/technical_analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..218817d 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -59,7 +59,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From bbca17fdc4f2a9ac8c3584cf5872ee317099959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 12/35] fix: derived candle items keep the symbol and code of
 their source

---
 utils/klines/kline.go              | 4 ++++
 utils/klines/technical_analysis.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ec5a278..9536757 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -137,6 +137,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	return &Item{
 		Exchange: e.Exchange,
 		Interval: newInterval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Candles:  candles,
 	}, nil
 }
@@ -154,6 +156,8 @@ func (e *Item) RemoveOutsideRangeCopy(start, end time.Time) *Item {
 	klineItem := &Item{
 		Exchange: e.Exchange,
 		Interval: e.Interval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Candles:  candles,
 	}
 	klineItem.RemoveOutsideRange(start, end)
diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 218817d..c79bb56 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -44,6 +44,8 @@ func (e *Item) ToHeikinAshi() *Item {
 	var result = &Item{
 		Exchange: e.Exchange,
 		Interval: e.Interval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 	}
 
 	result.Candles = make([]*Candle, len(e.Candles))
-- 
2.43.0


From 4a74f507e9e0ff6cc4e01e95b30732ffc53d2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 13/35] fix: ConvertToNewInterval reports an empty history as
 insufficient data

---
 utils/klines/kline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 9536757..ea3b1d3 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
-- 
2.43.0


From 273603e2016f82774cd9572b40389baafed9ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 14/35] fix: ConvertToNewInterval returns a date-range error
 instead of panicking

---
 utils/klines/kline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ea3b1d3..6cc4846 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -82,7 +82,7 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	// 有的时候不取整，重新计算开始、结束时间
 	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	var target int
-- 
2.43.0


From a33b835eb9d7de5ea9653ef1c948f3a371900267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 15/35] fix: window helpers return instead of panicking on a
 series shorter than the window

---
 utils/ta/ta.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..351b372 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -350,6 +366,9 @@ func Wma(period int, values []float64) []float64 {
 		copy(result, values)
 		return result
 	}
+	if len(values) < period {
+		return result
+	}
 	divider := (period * (period + 1)) >> 1
 	outIdx := period - 1
 	trailingIdx := startIdx - lookbackTotal
@@ -451,6 +470,10 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	outIdx := inTimePeriod
 	today := inTimePeriod + 1
 
@@ -483,6 +506,10 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	outIdx := inTimePeriod
 	today := inTimePeriod
@@ -771,6 +798,9 @@ func Min(period int, values []float64) []float64 {
 //		values 要计算的数组
 //		lenght 计算的长度
 func Highest(values []float64, lenght int) float64 {
+	if len(values) == 0 {
+		return 0
+	}
 	var result = values[len(values)-1]
 	for i := len(values) - 1; i >= len(values)-lenght; i-- {
 		if i < 0 {
@@ -790,6 +820,9 @@ func Highest(values []float64, lenght int) float64 {
 //		values 要计算的数组
 //		lenght 计算的长度
 func Lowest(values []float64, lenght int) float64 {
+	if len(values) == 0 {
+		return 0
+	}
 	var result = values[len(values)-1]
 	for i := len(values) - 1; i >= len(values)-lenght; i-- {
 		if i < 0 {
@@ -1001,6 +1034,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) == 0 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
@@ -1118,6 +1155,9 @@ func Nz(vals float64, replacement float64) float64 {
 //		values	要检查的数组
 //		source	要判断的值
 func CrossOver(values []float64, source float64) bool {
+	if len(values) < 2 {
+		return false
+	}
 	return values[len(values)-1] > source && values[len(values)-2] < source
 }
 
@@ -1129,5 +1169,8 @@ func CrossOver(values []float64, source float64) bool {
 //		values	要检查的数组
 //		source	要判断的值
 func CrossUnder(values []float64, source float64) bool {
+	if len(values) < 2 {
+		return false
+	}
 	return values[len(values)-1] < source && values[len(values)-2] > source
 }
-- 
2.43.0


From 4d98e8b339ac52e1362ba9dc215ec4c3da4ab8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 16/35] fix: Rsi needs one candle more than its period instead
 of panicking on exactly period candles

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 69f0b8d..5a27cc9 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -106,7 +106,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 2b7eb2eac28fd8cc8bb5282a36263812a9057513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 17/35] fix: Kdj with a period of one starts from the neutral
 50 instead of panicking

---
 trend/Kdj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index edab3f9..908210c 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -174,8 +174,12 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 5af440293f954f554fc696050be32c5f00a87daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 18/35] fix: VolumePriceTrend accepts an empty history

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index a487ab1..e2a3cfd 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -49,6 +49,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From 4bbac98e8346f761c61ecb2e38c97b4657e8a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 19/35] fix: AwesomeOscillator uses simple moving averages, as
 documented

---
 oscillator/AwesomeOscillator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index ed107df..f5681e2 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -41,8 +41,8 @@ func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 	var low = ohlc.Low
 
 	medianPrice := ta.DivideBy(ta.Add(low, high), float64(2))
-	sma5 := ta.Ema(5, medianPrice)
-	sma34 := ta.Ema(34, medianPrice)
+	sma5 := ta.Sma(5, medianPrice)
+	sma34 := ta.Sma(34, medianPrice)
 	ao := ta.Subtract(sma5, sma34)
 
 	for i := 0; i < len(ao); i++ {
-- 
2.43.0


From 0b66a639e23ac7683bda12543468863e574d1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 20/35] fix: Boll deviation is zero, not NaN, when rounding
 makes the variance of a flat window negative

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 8e91e89..d531054 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(sum2/float64(period)-sma[i]*sma[i], 0))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From 23e731a06ab422464c236c88a41750e8d3e55158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 21/35] fix: AverageDirectionalIndex publishes zero, not NaN,
 when there is no range or movement

---
 trend/AverageDirectionalIndex.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..23469c8 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,9 +122,13 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
-		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
-		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
-		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
+		if smoothedTR[i] != 0 {
+			plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
+			minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
+		}
+		if sum := plusDI[i] + minusDI[i]; sum != 0 {
+			dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / sum)
+		}
 	}
 
 	// 对 DX 进行平滑处理
-- 
2.43.0


From 77a1cc389c5cf24b07cbb9640fcde6435ce1e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 22/35] fix: Vortex publishes zero, not NaN, when the true
 ranges sum to zero

---
 trend/Vortex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 11d71ba..05d4e88 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -76,8 +76,10 @@ func (e *Vortex) Calculation() *Vortex {
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
 		trSum += tr[j]
 
-		plusVi[i] = plusVmSum / trSum
-		minusVi[i] = minusVmSum / trSum
+		if trSum != 0 {
+			plusVi[i] = plusVmSum / trSum
+			minusVi[i] = minusVmSum / trSum
+		}
 	}
 
 	for i := 0; i < len(plusVi); i++ {
-- 
2.43.0


From af27b0ae7a0dc6f714800e73bcb357941f93e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 23/35] fix: WilliamsR publishes zero, not NaN, for a flat
 window

---
 oscillator/WilliamsR.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index d17c5a2..fa090bc 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -61,7 +61,9 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	result := make([]float64, len(closing))
 
 	for i := 0; i < len(closing); i++ {
-		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
+		if highestHigh[i] != lowestLow[i] {
+			result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
+		}
 	}
 
 	for i := 0; i < len(result); i++ {
-- 
2.43.0


From f5f4d3c41767dc2a8fdf5e7771c359161abcd160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 24/35] fix: CCI is zero, not NaN, when the mean deviation is
 zero

---
 utils/ta/ta.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 351b372..85c396b 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -423,8 +423,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
 		typicalPrice := typicalPrices[i]
-		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
-		ccis[i] = cci
+		if md[i] != 0 {
+			ccis[i] = (typicalPrice - ma[i]) / (0.015 * md[i])
+		}
 	}
 
 	return ccis
-- 
2.43.0


From 6c0ecb660bf3da1000dcc13151484c913eb61245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:14 +0000
Subject: [PATCH 25/35] fix: linear regression over a single value has slope
 zero instead of NaN

---
 utils/ta/ta.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 85c396b..2984821 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -42,7 +42,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		m := 0.0
+		if divisor != 0 {
+			m = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		b := (sumY - m*sumX) / inTimePeriodF
 		outReal[outIdx] = b + m*(inTimePeriodF-1)
 		outIdx++
@@ -85,7 +88,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		m := 0.0
+		if divisor != 0 {
+			m = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		outReal[outIdx] = math.Atan(m) * (180.0 / math.Pi)
 		outIdx++
 		today++
@@ -127,7 +133,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		m := 0.0
+		if divisor != 0 {
+			m = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		outReal[outIdx] = (sumY - m*sumX) / inTimePeriodF
 		outIdx++
 		today++
@@ -169,7 +178,9 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		if divisor != 0 {
+			outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		outIdx++
 		today++
 	}
-- 
2.43.0


From 3ae73d066efeab939621e6a10b90fe39da3a4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 26/35] fix: least-squares slope is zero, not NaN, when the
 abscissae do not vary

---
 utils/regression.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/regression.go b/utils/regression.go
index 6154ef0..8fd1b8f 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -20,7 +20,10 @@ func LeastSquare(x, y []float64) (float64, float64) {
 	}
 
 	n := float64(len(x))
-	m := ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+	m := 0.0
+	if d := (n * sumX2) - (sumX * sumX); d != 0 {
+		m = ((n * sumXY) - (sumX * sumY)) / d
+	}
 	b := (sumY - (m * sumX)) / n
 
 	return m, b
@@ -57,7 +60,9 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 			n = float64(period)
 		}
 
-		m[i] = ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+		if d := (n * sumX2) - (sumX * sumX); d != 0 {
+			m[i] = ((n * sumXY) - (sumX * sumY)) / d
+		}
 		b[i] = (sumY - (m[i] * sumX)) / n
 	}
 
-- 
2.43.0


From f48535aea9a97b809257b3092f01fabf1f7a3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:13 +0000
Subject: [PATCH 27/35] fix: leftover candles do not raise the high or lower
 the low of the last converted candle

---
 utils/klines/kline.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 6cc4846..d57c875 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -107,11 +107,14 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			candles[target].Open = e.Candles[x].Open
 		}
 
-		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].High > candles[target].High {
+		// 不足一根新蜡烛的剩余蜡烛不在时间段内，不参与计算
+		inSpan := e.Candles[x].TimeUnix >= candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))
+
+		if inSpan && (e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].High > candles[target].High) {
 			candles[target].High = e.Candles[x].High
 		}
 
-		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && (candles[target].Low == 0 || e.Candles[x].Low < candles[target].Low) {
+		if inSpan && (e.Candles[x].TimeUnix == candles[target].TimeUnix || candles[target].Low == 0 || e.Candles[x].Low < candles[target].Low) {
 			candles[target].Low = e.Candles[x].Low
 		}
 
-- 
2.43.0


From 6a9d2d56101b3e2849cc36a79eb224029a8da6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:22 +0000
Subject: [PATCH 28/35] fix: converted candles keep the open and close of their
 span when the first candle is not aligned

---
 utils/klines/kline.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d57c875..8120a06 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -103,13 +103,14 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	target = 0
 	for x := range e.Candles {
 
-		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
-			candles[target].Open = e.Candles[x].Open
-		}
-
 		// 不足一根新蜡烛的剩余蜡烛不在时间段内，不参与计算
 		inSpan := e.Candles[x].TimeUnix >= candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))
 
+		// 开始时间没有对齐时，第一根蜡烛不一定在时间段的开头
+		if inSpan && candles[target].Open == 0 {
+			candles[target].Open = e.Candles[x].Open
+		}
+
 		if inSpan && (e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].High > candles[target].High) {
 			candles[target].High = e.Candles[x].High
 		}
@@ -121,23 +122,13 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix || (e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))) {
 			candles[target].Volume += e.Candles[x].Volume
 		}
-		if (e.Candles[x].TimeUnix + int64(e.Interval.Duration().Seconds())) == (candles[target].TimeUnix + int64(newInterval.Duration().Seconds())) {
+		if inSpan {
 			candles[target].Close = e.Candles[x].Close
 			candles[target].ChangePercent = (candles[target].Close - candles[target].Open) / candles[target].Open
-			if candles[target].Close > candles[target].Open {
-				candles[target].IsBullMarket = true
-			}
+			candles[target].IsBullMarket = candles[target].Close > candles[target].Open
 		}
 
-		if x < len(e.Candles)-1 && target < len(candles)-1 && e.Candles[x+1].TimeUnix == candles[target+1].TimeUnix {
-			// 注意：下面检查了后续切片的长度，因此如果我们无法制作完整的蜡烛，我们可以
-			// 立即中断。例如，一小时蜡烛中有 60 分钟
-			// 蜡烛，我们还剩下 59 分钟蜡烛。
-			// 整个过程被劈开。
-			if len(e.Candles[x:])-1 < oldIntervalsPerNewCandle {
-				break
-			}
-
+		if x < len(e.Candles)-1 && target < len(candles)-1 && e.Candles[x+1].TimeUnix >= candles[target+1].TimeUnix {
 			target++
 		}
 	}
-- 
2.43.0


From c2b45c6465ce389e6b735872dc9866922a7a2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:11 +0000
Subject: [PATCH 29/35] fix: CheckEquals compares every pair to its end and
 drains inputs of different lengths

---
 helpertools/CheckEquals.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..9bbac70 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -15,16 +15,23 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 	i := 0
 
 	for {
+		ended := 0
+
 		for j := 0; j < len(inputs); j += 2 {
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
 
 			if !actualOk || !expectedOk {
 				if actualOk != expectedOk {
+					for _, input := range inputs {
+						Drain(input)
+					}
+
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
-				return nil
+				ended += 2
+				continue
 			}
 
 			if !reflect.DeepEqual(actual, expected) {
@@ -32,6 +39,10 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 			}
 		}
 
+		if ended == len(inputs) {
+			return nil
+		}
+
 		i++
 	}
 }
-- 
2.43.0


From 81b540f25520a08adb3236592a745cfaf4f25549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 30/35] fix: count a lower breakout line as reached when the
 low goes below it

---
 trend/BreakoutProbability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index a9b9617..bd79418 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -228,7 +228,7 @@ func (e *BreakoutProbability) score(x float64, rowIndex int, green, red bool, to
 	rtotal := total[5][1]
 
 	var hh = commonutils.If(high > highPrev+x, true, false).(bool)
-	var ll = commonutils.If(low > lowPrev-x, true, false).(bool)
+	var ll = commonutils.If(low < lowPrev-x, true, false).(bool)
 
 	if green && hh {
 		total[rowIndex][0] = ghh + 1
-- 
2.43.0


From 1f188a768928ac4e64b29c1f1d9114fb136bed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:32 +0000
Subject: [PATCH 31/35] fix: the long structure's low change of character
 follows the long trend

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..5d2ea21 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -313,7 +313,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
 
 			var choch = false
-			if itrend > 0 {
+			if trend > 0 {
 				choch = true
 			}
 
-- 
2.43.0


From 4f46d02d450088e0a841dce27e9adf114f7747fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 32/35] fix: stamp every smart-money point with its candle's
 time

---
 trend/SmartMoneyConcepts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 5d2ea21..1a717c8 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,9 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 
 	var trend = 0
 	var itrend = 0
@@ -175,7 +178,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var close = closes[i]
 		var high = highs[i]
 		var low = lows[i]
-		var timeUnix = times[i]
 
 		if trail_up == 0.0 {
 			trail_up = high
@@ -430,8 +432,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 				Value: trail_dn,
 			}
 		}
-
-		e.data[i].Time = time.Unix(timeUnix, 0)
 	}
 
 	return e
-- 
2.43.0


From fae0b33d133529b577bb6c996f6d30a5a87c756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 33/35] fix: a repeated smart-money calculation starts from a
 clean state

---
 trend/SmartMoneyConcepts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 1a717c8..74fb921 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,11 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	e.OrderBlockBullish, e.OrderBlockBearish = nil, nil
+	e.os1Prev, e.os2Prev = 0, 0
+	e.idxPrevBullish, e.idxPrevBearish = 0, 0
+	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
 	for i := range e.data {
 		e.data[i].Time = time.Unix(times[i], 0)
 	}
-- 
2.43.0


From f01981df7f5f3158a6833d415181f1c826e72fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:50 +0000
Subject: [PATCH 34/35] fix: take a smart-money order block from the candles of
 the broken span

---
 trend/SmartMoneyConcepts.go | 45 ++++++++++---------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 74fb921..a73a8c1 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -40,10 +40,8 @@ type SmartMoneyConcepts struct {
 	OrderBlockBearish SmartMoneyConceptsDataOrderBlockList
 
 	// 内部变量
-	os1Prev        int
-	os2Prev        int
-	idxPrevBullish int
-	idxPrevBearish int
+	os1Prev int
+	os2Prev int
 
 	// K线到最后时显示压力、阻力位
 	StrongHigh SmartMoneyConceptsDataStrongWeak
@@ -136,7 +134,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	e.data = make([]SmartMoneyConceptsData, len(closes))
 	e.OrderBlockBullish, e.OrderBlockBearish = nil, nil
 	e.os1Prev, e.os2Prev = 0, 0
-	e.idxPrevBullish, e.idxPrevBearish = 0, 0
 	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
 	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
 	for i := range e.data {
@@ -265,7 +262,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			itop_cross = false
 			itrend = 1
 
-			e.OrderBlockBullish = e.obCoord(false, i, itop_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBullish, 1)
+			e.OrderBlockBullish = e.obCoord(false, i, itop_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBullish)
 
 		}
 
@@ -288,7 +285,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			top_cross = false
 			trend = 1
 
-			e.OrderBlockBearish = e.obCoord(false, i, top_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBearish, 2)
+			e.OrderBlockBearish = e.obCoord(false, i, top_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBearish)
 		}
 
 		//
@@ -314,7 +311,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			ibtm_cross = false
 			itrend = -1
 
-			e.OrderBlockBullish = e.obCoord(true, i, ibtm_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBullish, 1)
+			e.OrderBlockBullish = e.obCoord(true, i, ibtm_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBullish)
 		}
 
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
@@ -337,7 +334,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			btm_cross = false
 			trend = -1
 
-			e.OrderBlockBearish = e.obCoord(true, i, btm_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBearish, 2)
+			e.OrderBlockBearish = e.obCoord(true, i, btm_x, highs[:i+1], lows[:i+1], atr[:i+1], e.OrderBlockBearish)
 		}
 
 		//
@@ -442,11 +439,11 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	return e
 }
 
-func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList, obType int) SmartMoneyConceptsDataOrderBlockList {
+func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList) SmartMoneyConceptsDataOrderBlockList {
 
-	var min = 99999999.0
-	var max = 0.0
-	var idx = 1
+	var min = math.Inf(1)
+	var max = math.Inf(-1)
+	var idx = index - 1
 	var ob_threshold = atr
 
 	if useMax {
@@ -454,18 +451,9 @@ func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, a
 			var h = highs[i]
 			var l = lows[i]
 			if (h - l) < ob_threshold[i]*2 {
-				var idxPrev = e.idxPrevBullish
-				if obType == 2 {
-					idxPrev = e.idxPrevBearish
-				}
 				max = math.Max(h, max)
 				min = commonutils.If(max == h, l, min).(float64)
-				idx = commonutils.If(max == h, i, idxPrev).(int)
-				if obType == 1 {
-					e.idxPrevBullish = idx
-				} else if obType == 2 {
-					e.idxPrevBearish = idx
-				}
+				idx = commonutils.If(max == h, i, idx).(int)
 			}
 
 		}
@@ -474,18 +462,9 @@ func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, a
 			var h = highs[i]
 			var l = lows[i]
 			if (h - l) < ob_threshold[i]*2 {
-				var idxPrev = e.idxPrevBullish
-				if obType == 2 {
-					idxPrev = e.idxPrevBearish
-				}
 				min = math.Min(l, min)
 				max = commonutils.If(min == l, h, max).(float64)
-				idx = commonutils.If(min == l, i, idxPrev).(int)
-				if obType == 1 {
-					e.idxPrevBullish = idx
-				} else if obType == 2 {
-					e.idxPrevBearish = idx
-				}
+				idx = commonutils.If(min == l, i, idx).(int)
 			}
 		}
 	}
-- 
2.43.0


From 43e6f482fa1141062c58609a68f2edf1e5f5b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:14 +0000
Subject: [PATCH 35/35] fix: PivotMax and PivotMin return the extreme of their
 window when both sides tie or all values are negative

---
 utils/ta/ta.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 2984821..87b8165 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -883,10 +883,9 @@ func PivotLow(values []float64, left, right int) []float64 {
 
 // PivotMax 以 index 为起始点，向 左、右 开始查找最大值
 func PivotMax(values []float64, index, left, right int) (val float64, position int) {
-	var leftVal, rightVal float64
-
-	// val = values[index]
-	position = index
+	// 负数序列的最大值也小于 0，所以从 index 的值开始比较
+	var leftVal = values[index]
+	var rightVal = values[index]
 
 	var leftPositions = index
 	var rightPositions = index
@@ -914,12 +913,11 @@ func PivotMax(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal > rightVal {
-		return leftVal, leftPositions
-	} else if leftVal < rightVal {
+	// 左右两侧极值相同时取左侧
+	if leftVal < rightVal {
 		return rightVal, rightPositions
 	}
-	return values[index], index
+	return leftVal, leftPositions
 
 }
 
@@ -956,12 +954,11 @@ func PivotMin(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal < rightVal {
-		return leftVal, leftPositions
-	} else if leftVal > rightVal {
+	// 左右两侧极值相同时取左侧
+	if leftVal > rightVal {
 		return rightVal, rightPositions
 	}
-	return values[index], index
+	return leftVal, leftPositions
 
 }
 
-- 
2.43.0

