From 2bdd371dc81b7eca71fd0e1a8d0bad48fd22034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 001/111] fix: resultsq of kernels which do not define it, and
 of Tophat, follows result

---
 BayesicFitting/source/kernels/Kernel.py | 4 +++-
 BayesicFitting/source/kernels/Tophat.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/kernels/Kernel.py b/BayesicFitting/source/kernels/Kernel.py
index b633d70..7a5bb19 100644
--- a/BayesicFitting/source/kernels/Kernel.py
+++ b/BayesicFitting/source/kernels/Kernel.py
@@ -1,4 +1,6 @@
 
+import numpy as numpy
+
 __author__ = "Do Kester"
 __year__ = 2017
 __license__ = "GPL3"
@@ -128,7 +130,7 @@ class Kernel( object ):
         Parameters: x the square of the input value
 
         """
-        pass
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         """
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0c18024..0dc2515 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -83,7 +83,7 @@ class Tophat( Kernel ):
         return self.conv.result( x )
 
     def resultsq( self, xsq ):
-        return self.result( xsq )                   #  the same
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         return self.conv.partial( x )
-- 
2.43.0


From 99aa6205cbfcc60fd740282da6af291668f80b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 002/111] fix: derivatives of spline models of order other than
 3, sine splines and etalon drift

---
 BayesicFitting/source/EtalonDriftModel.py     |  4 ++--
 BayesicFitting/source/SineSplineDriftModel.py | 15 ++++++++-------
 BayesicFitting/source/SineSplineModel.py      |  7 ++++---
 BayesicFitting/source/SplinesModel.py         |  6 ++++--
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..fed8516 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.asarray( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..ffa93f5 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,17 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        poly = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * poly
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
-        cdx = cx * pdx
-        sdx = sx * pdx
+        # d( drift ) / dx
+        ddx = 2 * math.pi * ( poly + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx + sadx * sx + ddx * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..1ea3cb0 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -238,8 +238,10 @@ class SplinesModel( LinearModel ):
             parameters to the model
 
         """
-        ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+        if self.order == 0 :
+            return numpy.zeros( Tools.length( xdata ), dtype=float )
+
+        ff = numpy.minimum( numpy.arange( self.npmax, dtype=float ), self.order )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From 9f94080c08da27c94ab566f57b63350504ecde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 003/111] fix: numeric derivative is used when a model has no
 analytic one, also for more outputs

---
 BayesicFitting/source/FixedModel.py | 47 ++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..ddc523d 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -412,15 +412,48 @@ class FixedModel( BaseModel ):
         ------
         ValueError when the number of xdata dimensions > 1.
 
+        """
+        return self._numericDerivative( xdata, param, FixedModel.result )
+
+    def baseDerivative( self, xdata, params ) :
+        """
+        Replacement for models that dont define a derivative.
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the derivative
+        params : array_like
+            values for the (expanded) parameters.
+
+        """
+        warnings.warn( self.shortName() + " has no derivative defined; " +
+                    "using numeric derivative." )
+
+        return self._numericDerivative( xdata, params, BaseModel.result )
+
+    def _numericDerivative( self, xdata, param, result ) :
+        """
+        Returns the numeric derivative of result to input
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the derivative
+        param : array_like
+            values for the parameters.
+        result : callable
+            result( self, xdata, param )
+
         """
         dx = self.deltaP[0]
 
         ## One dimensional input; one or more dimensional outputs
         if self.ndim == 1 :
             xd = xdata + dx
-            r1 = FixedModel.result( self, xd, param )
+            r1 = result( self, xd, param )
             xd = xdata - dx
-            r2 = FixedModel.result( self, xd, param )
+            r2 = result( self, xd, param )
 
             return ( r1 - r2 ) / ( 2 * dx )
 
@@ -430,9 +463,9 @@ class FixedModel( BaseModel ):
             for i in range( self.ndim ) :
                 x = xdata.copy()
                 x[:,i] += dx
-                r1 = FixedModel.result( self, x, param )
+                r1 = result( self, x, param )
                 x[:,i] -= 2 * dx
-                r2 = FixedModel.result( self, x, param )
+                r2 = result( self, x, param )
                 df[:,i] = ( r1 - r2 ) / ( 2 * dx )
             return df
 
@@ -443,10 +476,10 @@ class FixedModel( BaseModel ):
             for i in range( self.ndim ) :
                 x = xdata.copy()
                 x[:,i] += dx
-                r1 = FixedModel.result( self, x, param )
+                r1 = result( self, x, param )
                 x[:,i] -= 2 * dx
-                r2 = FixedModel.result( self, x, param )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
+                r2 = result( self, x, param )
+                df[:,i] = ( r1[:,k] - r2[:,k] ) / ( 2 * dx )
             dfdx += [df]
         return dfdx
 
-- 
2.43.0


From ab68b5cd076336fcf21f248d35ee2c1da42da467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 004/111] fix: derivative of 2d kernel models at the center is
 not nan

---
 BayesicFitting/source/Kernel2dModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Kernel2dModel.py b/BayesicFitting/source/Kernel2dModel.py
index 3b05ada..39cef37 100644
--- a/BayesicFitting/source/Kernel2dModel.py
+++ b/BayesicFitting/source/Kernel2dModel.py
@@ -266,8 +266,9 @@ class BaseShape2d( object ):
         x = ( xdata[:,0] - params[1] ) / params[3]
         y = ( xdata[:,1] - params[2] ) / params[kp]
         r = numpy.sqrt( x * x + y * y )
-        drdx = x / r
-        drdy = y / r
+        r1 = numpy.where( r == 0, 1.0, r )
+        drdx = x / r1
+        drdy = y / r1
         df = [params[0] * self.kernel.partial( r ) * drdx / params[3],
               params[0] * self.kernel.partial( r ) * drdy / params[kp]]
         return df
-- 
2.43.0


From ac37a2d4fac0920ea32b9a96d193d0c4cae0c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 005/111] fix: pipes into, and following models after, a pipe

---
 BayesicFitting/source/Model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..a5974ec 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -598,7 +600,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -679,10 +681,10 @@ class Model( FixedModel ):
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
-        result = self.operate( result, param[at:], nextres )
+        result = self.operate( result, par, nextres )
         #  append the partials of the _next model
         at += np
         return model._recursivePartial( xdata, param, at, result, partial,
-- 
2.43.0


From 4de8bfa9cd945fed139979f807d80d07c8280fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 006/111] fix: derivatives of compound models with more inputs
 or outputs

---
 BayesicFitting/source/Model.py | 37 ++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a5974ec..4cbf548 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -578,19 +578,26 @@ class Model( FixedModel ):
             df = nextdf
 
         elif self._operation == self.ADD :
-            df = ( df + nextdf if isnotlist else 
+            df = ( df + nextdf if isnotlist else
                  [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
+            df = self._multiply( df, nextres )
+            nextdf = self._multiply( nextdf, result )
+            df = ( df + nextdf if isnotlist else
+                 [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            df = self._multiply( df, 1.0 / nextres )
+            nextdf = self._multiply( nextdf, result / ( nextres * nextres ) )
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -654,14 +661,14 @@ class Model( FixedModel ):
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self._multiply( partial, nextres )
+            nextpartial = self._multiply( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
+            partial = self._multiply( partial, 1.0 / nextres )
             invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            nextpartial = self._multiply( nextpartial, invres )
 
         elif self._operation == self.PIP :
 
@@ -691,6 +698,18 @@ class Model( FixedModel ):
                     useNum=useNum )
 
 
+    def _multiply( self, part, res ) :
+        """
+        Multiply partials or derivatives with (a function of) the result of a model.
+
+        For more outputs, part is a list of arrays, one for each output.
+
+        """
+        if isinstance( part, list ) :
+            return [numpy.multiply( p.transpose(), r ).transpose()
+                            for p,r in zip( part, res.transpose() )]
+        return numpy.multiply( part.transpose(), res.transpose() ).transpose()
+
     def selectPipe( self,  ndim, ninter, ndout ) :
 
         # Models G pars p and H pars q
@@ -1733,6 +1752,8 @@ class Brackets( Model ):
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
         setatt( self, "parameters", model.parameters )
+        if model.lastndout > 1 :
+            setatt( self, "ndout", model.lastndout )
 
         next = model
         deep = 1
-- 
2.43.0


From f2bd4139aa0b7d238e12ba5560a20182738933d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 007/111] fix: priors and limits of the constituents of a
 compound model

---
 BayesicFitting/source/BaseModel.py      | 42 ++++++++++++++++++-------
 BayesicFitting/source/Model.py          | 41 +++++++++++++-----------
 BayesicFitting/source/RepeatingModel.py |  4 +--
 3 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..f0130ee 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -352,6 +352,19 @@ class BaseModel( object ):
         isBound : bool
             Also check if the prior is bound.
         """
+        return self.baseHasPriors( isBound=isBound )
+
+    def baseHasPriors( self, isBound=True ) :
+        """
+        Return True when the base model has priors for all its parameters.
+
+        Parameters
+        ----------
+        isBound : bool
+            Also check if the prior is bound.
+        """
+        if self.npbase == 0 :
+            return True
         return ( self.priors is not None and ( ( not isBound ) or
                  all( [p.isBound() for p in self.priors] ) ) )
 
@@ -433,18 +446,25 @@ class BaseModel( object ):
         """
         Return True if the model has limits set.
         """
-        if self.npbase == 0 :
+        return self.baseHasLimits( fitindex=fitindex )
+
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True if the base model has limits set.
+
+        Parameters
+        ----------
+        fitindex : None or list of int
+            list of indices to be fitted. Those >= npbase are not in this model.
+        """
+        if fitindex is None :
+            fitindex = range( self.npbase )
+        else :
+            fitindex = [k for k in fitindex if k < self.npbase]
+
+        if len( fitindex ) == 0 :
             return True
         if self.priors is None :
             return False
-        if fitindex is None :
-            return all( p.hasLimits() for p in self.priors )
-        else :
-            haslim = True
-            npr = len( self.priors )
-            for k in fitindex :
-                if k >= npr :
-                    return haslim
-                haslim = haslim and self.priors[k].hasLimits()
-            return haslim
+        return all( self.basePrior( k ).hasLimits() for k in fitindex )
 
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 4cbf548..32a3f4e 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1037,7 +1037,7 @@ class Model( FixedModel ):
         hasp = True
         mdl = self
         while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
+            hasp = hasp and mdl.baseHasPriors( isBound=isBound )
             mdl = mdl._next
         return hasp
 
@@ -1168,7 +1168,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        ml = nl = nh = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
@@ -1230,12 +1230,11 @@ class Model( FixedModel ):
         haslim = True
         mdl = self
         while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
+            haslim = haslim and mdl.baseHasLimits( fitindex=fitindex )
             if not haslim :
                 return haslim
             if fitindex is not None :
-                q = numpy.where( fitindex >= mdl.npbase )
-                fitindex = fitindex[q] - mdl.npbase
+                fitindex = [k - mdl.npbase for k in fitindex if k >= mdl.npbase]
             mdl = mdl._next
         return haslim
 
@@ -1309,16 +1308,10 @@ class Model( FixedModel ):
 
     def nextPrior( self ) :
         mdl = self
-        k = 0
-        while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
-            k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
+        while mdl is not None :
+            for k in range( mdl.npbase ) :
+                yield mdl.getPrior( k )
+            mdl = mdl._next
 
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
@@ -1845,9 +1838,6 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
-
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
         np = self.npbase
@@ -1877,7 +1867,7 @@ class Brackets( Model ):
         """
         return self.model.getPrior( k )
 
-    def hasPriors( self, isBound=True ) :
+    def baseHasPriors( self, isBound=True ) :
         """
         Return True when the model has priors for all its parameters.
 
@@ -1888,6 +1878,19 @@ class Brackets( Model ):
         """
         return self.model.hasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True if the model has limits set.
+
+        Parameters
+        ----------
+        fitindex : None or list of int
+            list of indices to be fitted.
+        """
+        if fitindex is not None :
+            fitindex = [k for k in fitindex if k < self.npbase]
+        return self.model.hasLimits( fitindex=fitindex )
+
 
     #  ******Brackets Parameter NAME*******************************************************************
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..a586e97 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -469,8 +469,8 @@ class RepeatingModel( Model, Dynamic ):
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortname() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def baseHasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound )
 
     def basePrior( self, kpar ):
         """
-- 
2.43.0


From a4ebc0caba0ed0cf6b03020f02c5d12e17c9b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 008/111] fix: partials of PseudoVoigt, Power and Splines
 models for a list of parameters

---
 BayesicFitting/source/PowerModel.py       |  8 +++---
 BayesicFitting/source/PseudoVoigtModel.py | 30 +++++++++--------------
 BayesicFitting/source/SplinesModel.py     |  2 +-
 3 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/BayesicFitting/source/PowerModel.py b/BayesicFitting/source/PowerModel.py
index 2387ac2..3471341 100644
--- a/BayesicFitting/source/PowerModel.py
+++ b/BayesicFitting/source/PowerModel.py
@@ -124,11 +124,9 @@ class PowerModel( LinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        if parlist is None or parlist[0] == 0 :
-            inp = numpy.asarray( [xdata] ).transpose()
-            return numpy.power( inp, self.exponent )
-        else :
-            return numpy.asarray( [] )
+        inp = numpy.asarray( [xdata] ).transpose()
+        partial = numpy.power( inp, self.exponent )
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..e18df2c 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,25 +158,19 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
-
-        return partial
+        partial = numpy.zeros( ( Tools.length( xdata ), 4 ), dtype=float )
+
+        # transposes, as params[3] might be an array : one value for each xdata
+        lp = self.lorentz.basePartial( xdata, pars ).transpose()
+        gp = self.gauss.basePartial( xdata, pars ).transpose()
+        partial[:,:3] = ( params[3] * lp + ( 1 - params[3] ) * gp ).transpose()
+        partial[:,3] = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+
+        if parlist is None :
+            return partial
+
+        return partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 1ea3cb0..af6c805 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -220,7 +220,7 @@ class SplinesModel( LinearModel ):
             i += 1
         partial[ki,i] = x[ki]
 
-        if parlist is None or len( parlist ) == np :
+        if parlist is None :
             return partial
 
         return partial[:,parlist]
-- 
2.43.0


From b9708f3956cd919e4a3376a128c705c045bc3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 009/111] fix: copy of BasicSplinesModel keeps its order

---
 BayesicFitting/source/BasicSplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index a2c3bcd..9c4065b 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -180,7 +180,7 @@ class BasicSplinesModel( SplinesModel ):
 
 
     def copy( self ):
-        return BasicSplinesModel( knots=self.knots, border=self.border, copy=self )
+        return BasicSplinesModel( knots=self.knots, order=self.order, border=self.border, copy=self )
 
     def __setattr__( self, name, value ):
         """
-- 
2.43.0


From 9ad7b4e37468fc4399acd54edcf47b0aee18e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 010/111] fix: parameters replaced by models: zero checks, all
 replaced, models without parameters, all parameters fixed

---
 BayesicFitting/source/BaseModel.py  |  5 +++--
 BayesicFitting/source/FixedModel.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index f0130ee..a1342db 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -253,11 +253,12 @@ class BaseModel( object ):
 
         """
         for k in self.nonZero :
-            if param[k] == 0 :
+            zero = numpy.equal( param[k], 0 )       # param[k] might be an array
+            if numpy.any( zero ) :
                 msg = ( ( self.shortName() + ": " + self.baseParameterName( k ) +
                             " ( =parameter[%d] ) equals zero."%k ) )
                 warnings.warn( msg )
-                param[k] = self.tiny
+                param[k] = numpy.where( zero, self.tiny, param[k] )[()]
 
     def isDynamic( self ) :
         """
diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index ddc523d..70f164d 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -176,7 +176,7 @@ class FixedModel( BaseModel ):
             raise AttributeError( "Attribute fixed needs to be a dictionary" )
 
         parlist = numpy.arange( self._npb )
-        parlist = numpy.setxor1d( parlist, list( fixed.keys() ) )
+        parlist = numpy.setdiff1d( parlist, numpy.array( list( fixed.keys() ), dtype=int ) )
         setatt( self, "parlist", parlist )
 
     def select( self, params ) :
@@ -272,7 +272,10 @@ class FixedModel( BaseModel ):
         ## par is now a heterogeneous list of floats and [floats]
         ## It can only be cast into an array of object
 
-        return numpy.asarray( par, dtype=object )
+        pars = numpy.empty( len( par ), dtype=object )
+        for k,p in enumerate( par ) :
+            pars[k] = p
+        return pars
 
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param ):
@@ -295,14 +298,15 @@ class FixedModel( BaseModel ):
         np = len( param )
         ns = len( expparam )
         nf = self.npmax - len( self.fixed )
-        plist = numpy.append( self.parlist[:nf], self.mlist )
+        mlist = [k for k in self.mlist if self.fixed[k].npchain > 0]
+        plist = numpy.append( self.parlist[:nf], numpy.array( mlist, dtype=int ) )
         partial = numpy.zeros( ( Tools.length( xdata ), np ), dtype=float )
 
         bp = self.basePartial( xdata, expparam[:self.npmax], parlist=plist )
         partial[:,:nf] = bp[:,:nf]
         ns = nf
         nb = self.npmax
-        for k in self.mlist :
+        for k in mlist :
             ne = self.fixed[k].npchain
             pa = expparam[nb:nb+ne]
             pf = self.fixed[k].partial( xdata, pa )
-- 
2.43.0


From 8506fe1f81022d37f10f2c10edc8e6fd87e54a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 011/111] fix: derivative of AstropyModel is returned

---
 BayesicFitting/source/AstropyModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 30afacf..7ca5f78 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -170,7 +170,7 @@ class AstropyModel( Model ):
             values for the parameters.
 
         """
-        self.numDerivative( xdata, params )
+        return super().baseDerivative( xdata, params )
 
     def baseName( self ):
         """
-- 
2.43.0


From ea844799ca8ddf6456b34d770271db44993933af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 012/111] fix: numeric partials and derivative, partials for a
 list and copies of UserModel

---
 BayesicFitting/source/UserModel.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 0680a63..3fa1f58 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -127,19 +127,19 @@ class UserModel( Model ):
             setatt( self, "userDerivative", copy.userDerivative )
             setatt( self, "userName", copy.userName, type=str )
         else :
-            self.setMethod( "userPartial", userPartial, numeric=self.numPartial )
-            self.setMethod( "userDerivative", userDeriv, numeric=self.numDerivative )
+            self.setMethod( "userPartial", userPartial, numeric=True )
+            self.setMethod( "userDerivative", userDeriv, numeric=True )
             setatt( self, "userName", userName, type=str )
 
     def copy( self ):
         """ Copy method.  """
-        return UserModel( self.npars, self.baseResult, ndim=self.ndim, copy=self )
+        return UserModel( self.npmax, self.userResult, ndim=self.ndim, copy=self )
 
-    def setMethod( self, name, userMethod, numeric=None ) :
+    def setMethod( self, name, userMethod, numeric=False ) :
         if callable( userMethod ) :
             setatt( self, name, userMethod )
-        elif callable( numeric ) :
-            setatt( self, name, numeric )
+        elif numeric :
+            setatt( self, name, None )              # use the numeric one
             warnings.warn( "Using numeric approximations for %s" % name )
         else :
             raise ValueError( "%s %s is not callable" % ( name, str( userMethod ) ) )
@@ -172,10 +172,11 @@ class UserModel( Model ):
             list of indices active parameters (or None for all)
 
         """
-        if parlist is None :
-            return self.userPartial( xdata, params )
-        else :
-            return self.userPartial( xdata, params )[parlist]
+        if self.userPartial is None :
+            return super().basePartial( xdata, params, parlist=parlist )
+
+        partial = self.userPartial( xdata, params )
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
@@ -189,6 +190,9 @@ class UserModel( Model ):
             values for the parameters.
 
         """
+        if self.userDerivative is None :
+            return super().baseDerivative( xdata, params )
+
         return self.userDerivative( xdata, params )
 
     def baseName( self ):
-- 
2.43.0


From 3782066c7822647dfcbb51b070e8b1dd3026e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 013/111] fix: copy of a bracket model keeps its parameters

---
 BayesicFitting/source/Model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 32a3f4e..0c15c9b 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1744,7 +1744,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters )
         if model.lastndout > 1 :
             setatt( self, "ndout", model.lastndout )
 
-- 
2.43.0


From 0dc6a95be11d7589a288e209136a02ab890a4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 014/111] fix: RepeatingModel of compound models, its copies,
 priors and names

---
 BayesicFitting/source/RepeatingModel.py | 49 ++++++++++++++-----------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index a586e97..b2a03ec 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -147,10 +147,19 @@ class RepeatingModel( Model, Dynamic ):
         if fixed is not None :
             raise AttributeError( "DynamicModel cannot have fixed parameters; " +
                                   " put fixed parameter(s0 in model." )
+        if copy is not None :
+            minComp = copy.minComp
+            maxComp = copy.maxComp
+            same = copy.same
+            if copy.isDynamic() :
+                growPrior = copy.growPrior.copy()
+
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain
+        if ncomp > 1 :
+            np -= ( ncomp - 1 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
@@ -158,15 +167,9 @@ class RepeatingModel( Model, Dynamic ):
         self.ncomp = ncomp
         self.model = model
 
-        if copy is None :
-            self.minComp = minComp
-            self.maxComp = maxComp
-            self.priors = model.priors          ## point to the same
-        else :
-            self.minComp = copy.minComp
-            self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
-            same = copy.same
+        self.minComp = minComp
+        self.maxComp = maxComp
+        self.priors = model.priors          ## point to the same
 
         self.setSame( same )
         self.deltaNpar = len( self.index )
@@ -183,7 +186,7 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
@@ -199,11 +202,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -232,7 +235,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -272,7 +275,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -304,7 +307,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -353,7 +356,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return result
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -389,9 +392,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -425,7 +428,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
@@ -465,9 +468,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         if kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
+        elif kpar >= self.npbase and self._next is not None :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
     def baseHasPriors( self, isBound=True ) :
         return self.model.hasPriors( isBound=isBound )
@@ -500,7 +505,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if self.same is None or i not in self.same else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From 9c7b47d746ad109892260874b56beea612265551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 015/111] fix: copies of, and priors in CombiModel

---
 BayesicFitting/source/CombiModel.py | 104 +++++++++++++++++++++-------
 1 file changed, 80 insertions(+), 24 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..96ab354 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -5,6 +5,7 @@ import re
 from . import Tools
 from .Tools import setAttribute as setatt
 
+from .BaseModel import BaseModel
 from .BracketModel import BracketModel
 from .Formatter import formatter as fmt
 
@@ -155,6 +156,20 @@ class CombiModel( BracketModel ):
                     values  multiplied to each of the key-th parameters
 
         """
+        if copy is not None :                   # model is the complete chain already
+            super( CombiModel, self ).__init__( model, copy=copy, **kwargs )
+
+            setatt( self, "nmp", copy.nmp )
+            setatt( self, "nrepeat", copy.nrepeat )
+            setatt( self, "npcmax", copy.npcmax )
+            setatt( self, "addindex", copy.addindex.copy() )
+            setatt( self, "addvalue", copy.addvalue.copy() )
+            setatt( self, "mulindex", copy.mulindex.copy() )
+            setatt( self, "mulvalue", copy.mulvalue.copy() )
+            setatt( self, "select", copy.select.copy() )
+            setatt( self, "expandindex", copy.expandindex.copy() )
+            return
+
         mdl = model.copy()
         for k in range( 1, nrepeat ) :
             if oper == 'add' :
@@ -172,14 +187,6 @@ class CombiModel( BracketModel ):
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
-        if copy is not None :
-            setatt( self, "addindex", copy.addindex.copy() )
-            setatt( self, "addvalue", copy.addvalue.copy() )
-            setatt( self, "mulindex", copy.mulindex.copy() )
-            setatt( self, "mulvalue", copy.mulvalue.copy() )
-            setatt( self, "select", copy.select.copy() )
-            setatt( self, "expandindex", copy.expandindex.copy() )
-
         setatt( self, "_npchain", len( self.select ) )
         setatt( self, "npbase", self._npchain )
         setatt( self, "npmax", self.npbase )
@@ -187,12 +194,7 @@ class CombiModel( BracketModel ):
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model.copy(), copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
@@ -377,24 +379,78 @@ class CombiModel( BracketModel ):
         """
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
+    def setPrior( self, kpar, prior=None, **kwargs ) :
+        """
+        Set the prior for parameter kpar.
+
+        Parameters
+        ----------
+        kpar : int
+            index of the parameter
+        prior : Prior
+            prior for parameter kpar
+        kwargs : keyword arguments
+            attributes to be passed to the prior
+        """
+        if kpar >= self.npbase :
+            super( CombiModel, self ).setPrior( kpar, prior=prior, **kwargs )
+            return
+
+        if self.priors is None and self.model.hasPriors( isBound=False ) :
+            self.priors = [self.basePrior( k ).copy() for k in range( self.npbase )]
+        BaseModel.setPrior( self, kpar, prior=prior, **kwargs )
+
     def getPrior( self, kpar ) :
         """
         Return the prior for parameter kpar.
 
-        First try at the kpar location, possibly further in the chain;
-        Upon failure try at the equivalent position in the head model
-    
         Parameters
         ----------
         kpar : int
             index of the parameter to be selected.
         """
-#        print( kpar, self.parameters[kpar] )
-        try :
-            return self.model.getPrior( kpar )
-        except IndexError :
-            k = self.select[kpar] % self.nmp
-#            print( k, self.expandindex[kpar], self.nmp, self.select[kpar] )
-            return self.model.getPrior( k )
+        if kpar < self.npbase :
+            return self.basePrior( kpar )
+        return super( CombiModel, self ).getPrior( kpar )
+
+    def basePrior( self, kpar ) :
+        """
+        Return the prior for parameter kpar.
+
+        When no prior has been set in this model, it is the prior of the
+        equivalent parameter in the repeated model.
+
+        Parameters
+        ----------
+        kpar : int
+            index of the parameter to be selected.
+        """
+        if self.priors is not None :
+            return BaseModel.basePrior( self, kpar )
+        return self.model.getPrior( self.select[kpar] )
+
+    def baseHasPriors( self, isBound=True ) :
+        """
+        Return True when the model has priors for all its parameters.
 
+        Parameters
+        ----------
+        isBound : bool
+            Also check if the prior is bound.
+        """
+        if self.priors is not None :
+            return BaseModel.baseHasPriors( self, isBound=isBound )
+        return super( CombiModel, self ).baseHasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True if the model has limits set.
+
+        Parameters
+        ----------
+        fitindex : None or list of int
+            list of indices to be fitted.
+        """
+        if self.priors is not None :
+            return BaseModel.baseHasLimits( self, fitindex=fitindex )
+        return super( CombiModel, self ).baseHasLimits()
-- 
2.43.0


From cd3739cbf0fc4086924d71e91fa4c64f79537a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 016/111] fix: StellarOrbitModel returns its partials as a
 list, so that it can be compounded

---
 BayesicFitting/source/StellarOrbitModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index 5739de9..390126c 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -389,7 +389,7 @@ class StellarOrbitModel( NonLinearModel ):
             partial1[:,k] = part1[kp]()
 
 
-        return ( partial0, partial1 )
+        return [partial0, partial1]
 
 
     def baseName( self ):
-- 
2.43.0


From 0d5f0eefd674bb631ee02c146abb06b8fc11d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 017/111] fix: copies of models have their own priors

---
 BayesicFitting/source/BaseModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a1342db..b0b8d40 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -123,12 +123,13 @@ class BaseModel( object ):
         else :
             setatt( self, "npbase", copy.npbase )
             setatt( self, "ndim", copy.ndim )
-            setatt( self, "priors", None if copy.priors is None else copy.priors.copy() )
+            setatt( self, "priors", None if copy.priors is None else
+                                    [p.copy() for p in copy.priors] )
             setatt( self, "posIndex", copy.posIndex )
             setatt( self, "nonZero", copy.nonZero )
             setatt( self, "deltaP", copy.deltaP )
             setatt( self, "tiny", copy.tiny )
-            setatt( self, "parNames", copy.parNames )
+            setatt( self, "parNames", copy.parNames[:] )
 
     def __setattr__( self, name, value ):
         """
-- 
2.43.0


From 7f72db6d161bfc29491865132c8f6b12e16d1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 018/111] fix: limits of RepeatingModel are those of the
 repeated model

---
 BayesicFitting/source/RepeatingModel.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index b2a03ec..a2fbb61 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -477,6 +477,19 @@ class RepeatingModel( Model, Dynamic ):
     def baseHasPriors( self, isBound=True ) :
         return self.model.hasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True if the repeated model has limits set.
+
+        Parameters
+        ----------
+        fitindex : None or list of int
+            list of indices to be fitted.
+        """
+        if fitindex is not None :
+            fitindex = [self.par2model( k )[0] for k in fitindex if k < self.npbase]
+        return self.model.hasLimits( fitindex=fitindex )
+
     def basePrior( self, kpar ):
         """
         Return the prior for parameter with index kpar.
-- 
2.43.0


From 5949307309040dd0ca1b37706b06d3dd737fbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 019/111] fix: isolated models have their own parameters;
 brackets have a name

---
 BayesicFitting/source/Model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 0c15c9b..823bdca 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
@@ -1852,10 +1852,9 @@ class Brackets( Model ):
                  indent + self._next._toString( indent=indent, npars=npars+np ) )
 
     #  ******Brackets BASENAME*******************************************************************
-#    def baseName( self ):
-#        """ Returns a string representation of the model.  """
-#        indent = "  "
-#        return "{ " + self.model._toString( indent * self.deep ) + " }"
+    def baseName( self ):
+        """ Returns a string representation of the model.  """
+        return self.model.shortName()
 
     def basePrior( self, k ) :
         """
-- 
2.43.0


From d56ef442054ec44dc03c4067c978167d907a312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 020/111] fix: priors follow limits, scale and center that are
 set later

---
 BayesicFitting/source/ExponentialPrior.py |  6 ++++--
 BayesicFitting/source/Prior.py            | 21 +++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..662d5d0 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,10 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
-            prior=self )
+        pr = ExponentialPrior( scale=self.scale, hilimit=self.limits[1], prior=self )
+        if self.hasLowLimit() :
+            pr.setLimits( self.limits )
+        return pr
 
     def shortName( self ) :
         return "ExponentialPrior"
diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..2a9f6f7 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -188,15 +188,22 @@ class Prior( object ):
             print( self._lowDomain, self.lowLimit, self.highLimit, self._highDomain )
             raise ValueError( "Limits out of order or out of domain" )
 
+        if self.isCircular() :
+            self.circular = True        ## fold on the new limits
+
         try :
-            self._umin = 0.0            ## only for re-setting the limits
-            self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
+            ## the unlimited transform, also when re-setting the limits
+            d2u = getattr( self, "baseDomain2Unit", self.domain2Unit )
+            self._umin = 0.0
+            umax = d2u( self.highLimit )
+            self._umin = d2u( self.lowLimit )
             self._urng = umax - self._umin
         except Exception :
             self._urng = math.inf
 
+        if hasattr( self, "limint" ) :
+            self.limint = self._urng    ## normalisation within the limits
+
 #        print( "Prior 3 ", self._umin, self._urng )
 
         if math.isinf( self._urng ) :
@@ -291,6 +298,9 @@ class Prior( object ):
 
         if name in keys :
             setatt( self, name, value )
+            if name in ["center", "scale"] and "_urng" in self.__dict__ :
+                self.setLimits( [self.lowLimit if self.hasLowLimit() else None,
+                                 self.highLimit if self.hasHighLimit() else None] )
         else :
             raise AttributeError( repr( self ) + " object has no attribute " + name )
 
@@ -316,8 +326,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits()
 
     def setAttributes( self, limits=None, scale=None ) :
         """
-- 
2.43.0


From 3597f64d2ccce7289d6ee48af01cf1207d113092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 021/111] fix: mixed error distribution: weights pertain to the
 mixture, any number of hyperparameters

---
 .../source/MixedErrorDistribution.py          | 123 ++++++++++--------
 1 file changed, 67 insertions(+), 56 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..4d8f711 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -1,7 +1,7 @@
 import numpy as numpy
+import copy as pycopy
 import math
 import re
-import sys
 
 from .ErrorDistribution import ErrorDistribution
 from .HyperParameter import HyperParameter
@@ -124,6 +124,31 @@ class MixedErrorDistribution( ErrorDistribution ):
         return self.errdis1.acceptWeight() and self.errdis2.acceptWeight()
 
 
+    def splitParams( self, allpars ) :
+        """
+        Return the parameter lists for errdis1 and errdis2.
+
+        Parameters
+        ----------
+        allpars : array_like
+            parameters, hyperpars of errdis1, hyperpars of errdis2, fraction
+        """
+        k2 = len( allpars ) - self.errdis2.nphypar - 1
+        k1 = k2 - self.errdis1.nphypar
+        return ( allpars[:k2], numpy.append( allpars[:k1], allpars[k2:-1] ) )
+
+    def unweighted( self, problem ) :
+        """
+        Return the problem itself or without weights when it has them.
+
+        Weights pertain to the mixture, not to the constituents.
+        """
+        if problem.weights is None :
+            return problem
+        pr = pycopy.copy( problem )
+        pr.weights = None
+        return pr
+
     #  *********LIKELIHOODS***************************************************
     def logLdata( self, problem, allpars, mockdata=None ) :
         """
@@ -143,20 +168,21 @@ class MixedErrorDistribution( ErrorDistribution ):
             mockdata = problem.result( allpars[:problem.npars] )
 
         f = allpars[-1]
-        n1 = self.errdis1.nphypar
-        n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        ( p1, p2 ) = self.splitParams( allpars )
+        pr = self.unweighted( problem )
 
         if f <= 0 :
-            return self.errdis2.logLdata( problem, p2, mockdata=mockdata )
-        if f >= 1 :
-            return self.errdis1.logLdata( problem, p1, mockdata=mockdata )
+            lld = self.errdis2.logLdata( pr, p2, mockdata=mockdata )
+        elif f >= 1 :
+            lld = self.errdis1.logLdata( pr, p1, mockdata=mockdata )
+        else :
+            lld = numpy.logaddexp(
+                self.errdis1.logLdata( pr, p1, mockdata=mockdata ) + math.log( f ),
+                self.errdis2.logLdata( pr, p2, mockdata=mockdata ) + math.log( 1 - f ) )
 
-        return numpy.logaddexp(
-                self.errdis1.logLdata( problem, p1, mockdata=mockdata ) + math.log( f ),
-                self.errdis2.logLdata( problem, p2, mockdata=mockdata ) + math.log( 1 - f ) )
+        if pr is not problem and self.acceptWeight() :
+            lld = numpy.where( problem.weights == 0, 0, lld * problem.weights )
+        return lld
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
@@ -180,60 +206,45 @@ class MixedErrorDistribution( ErrorDistribution ):
         # make allpars lists (p1,p2)for errdis1&2; shift hyperpars in p2
         f = allpars[-1]
         emf = 1 - f
-        n1 = self.errdis1.nphypar
         n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
-
+        ( p1, p2 ) = self.splitParams( allpars )
+        pr = self.unweighted( problem )
+        wgt = problem.weights if pr is not problem and self.acceptWeight() else 1.0
 
         # make fitIndex (f1,f2) for errdis1&2
+        # the order in fitIndex is parameters, hypars of errdis1, of errdis2 and fraction
         fitIndex = numpy.asarray( fitIndex )
-        q = numpy.where( fitIndex >= 0 )
-        f1 = fitIndex[q]
-        f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
-
-        # make fitindices (f1,f2) for errdis1&2
-        lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
-        lhd2 = numpy.exp( self.errdis2.logLdata( problem, p2, mockdata=mockdata ) )
-        pg1 = self.errdis1.nextPartialData( problem, p1, f1, mockdata=mockdata )
-        pg2 = self.errdis2.nextPartialData( problem, p2, f2, mockdata=mockdata )
-
-        ff1 = f * lhd1 + emf * lhd2
-
-        # Where the mixed likelihood (=ff1) is indistinguishable from 0,
-        # its partials also must be zero. In those locations we can replace
-        # the inverse of ff1, needed in calculating the partials, by 0.
-        fff = numpy.zeros_like( ff1 )
-        q = numpy.where( ff1 > sys.float_info.min )
-        fff[q] = 1.0 / ff1[q]
-
-#        fff = numpy.where( ff1 < sys.float_info.min, 0.0, 1.0 / ff1 )
+        h1 = fitIndex < - n2 - 1
+        h2 = numpy.logical_and( fitIndex < -1, numpy.logical_not( h1 ) )
+        par = fitIndex >= 0
+        f1 = numpy.where( h1, fitIndex + n2 + 1, fitIndex )[numpy.logical_or( par, h1 )]
+        f2 = numpy.where( h2, fitIndex + 1, fitIndex )[numpy.logical_or( par, h2 )]
+
+        lld1 = self.errdis1.logLdata( pr, p1, mockdata=mockdata )
+        lld2 = self.errdis2.logLdata( pr, p2, mockdata=mockdata )
+        pg1 = self.errdis1.nextPartialData( pr, p1, f1, mockdata=mockdata )
+        pg2 = self.errdis2.nextPartialData( pr, p2, f2, mockdata=mockdata )
+
+        # likelihoods of errdis1&2 relative to the mixed likelihood.
+        # Where the mixed likelihood is 0, its partials also must be zero.
+        with numpy.errstate( divide="ignore", invalid="ignore" ) :
+            lmix = numpy.logaddexp( lld1 + numpy.log( f ), lld2 + numpy.log( emf ) )
+            q = numpy.isfinite( lmix )
+            lhd1 = wgt * numpy.where( q, numpy.exp( lld1 - lmix ), 0 )
+            lhd2 = wgt * numpy.where( q, numpy.exp( lld2 - lmix ), 0 )
 
         for fi in fitIndex :
             if fi >= 0 :            ## partialLogL for model parameters
-                npg1 = next( pg1 )
-                npg2 = next( pg2 )
-
-                yield ( fff * ( f * lhd1 * npg1 +
-                              emf * lhd2 * npg2 ) )
-
-            if fi == -1 :           ## partialLogL for fraction f
-                yield ( ( lhd1 - lhd2 ) * fff )
-
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
-                npg2 = next( pg2 )
+                yield f * lhd1 * next( pg1 ) + emf * lhd2 * next( pg2 )
 
-                yield ( emf * lhd2 * fff * npg2 )
+            elif fi == -1 :         ## partialLogL for fraction f
+                yield lhd1 - lhd2
 
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
-                npg1 = next( pg1 )
+            elif fi >= -n2 - 1 :    ## partialLogL for hyperpars of errdis2
+                yield emf * lhd2 * next( pg2 )
 
-                yield ( f * lhd1 * fff * npg1 )
+            else :                  ## partialLogL for hyperpars of errdis1
+                yield f * lhd1 * next( pg1 )
 
 
     def __str__( self ) :
-- 
2.43.0


From 2b8307e02b384007987584ef31e3f439d4b2cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 022/111] fix: errors in x and y: normalisation of the 2d
 gauss; accuracy is not squared twice nor altered

---
 BayesicFitting/source/ErrorsInXandYProblem.py    |  7 ++++---
 .../source/Gauss2dErrorDistribution.py           | 16 ++++++----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..cba5fe9 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,10 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                # not in place, to leave the accuracy of the user alone
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..c30b953 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -139,11 +139,11 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         if problem.weights is None :
             if det.size == 1 : 
-                norm = problem.ndata * ( self.LOG2PI + math.log( det ) )
+                norm = problem.ndata * ( 2 * self.LOG2PI + math.log( det ) )
             else :
-                norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
+                norm = problem.ndata * 2 * self.LOG2PI + numpy.sum( numpy.log( det ) )  
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( problem.weights * ( 2 * self.LOG2PI + numpy.log( det ) ) ) 
 
         return -0.5 * ( norm + chisq )
 
@@ -167,7 +167,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         rot2 = problem.weightedResSq( allpars, mockdata=mockdata )
 
-        norm = self.LOG2PI + numpy.log( det )
+        norm = 2 * self.LOG2PI + numpy.log( det )
         if problem.weights is not None :
             norm *= problem.weights
 
@@ -201,16 +201,12 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
         dM = problem.partial( allpars[:-1] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        print( "G2dED   ", rot2.shape, res.shape, res2.shape, dM.shape, dL.shape ), 
-        print( fmt( dM, max=None ) )
-        print( "LLD    ", fmt( res, max=None ) )
-
         i = 0
         for  k in fitIndex :
             if k < 0 :              # model accuracy
                 wgt = 1 if problem.weights is None else problem.weights
-                dL[-1] = - modelscale / det * numpy.sum( ( problem.varxx + problem.varyy +
-                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) 
+                dL[-1] = - modelscale * numpy.sum( ( ( problem.varxx + problem.varyy +
+                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) / det )
             else :
                 dL[i] = numpy.sum( res * dM[:,k] )
                 i += 1
-- 
2.43.0


From 154f4183e2e712f78924c018b01336ab4261f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 023/111] fix: sum of weights of, and scalar accuracy in
 problems with multiple outputs

---
 BayesicFitting/source/MultipleOutputProblem.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..d014f86 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -93,6 +93,9 @@ class MultipleOutputProblem( Problem ):
 
         """
         if weights is not None :
+            if numpy.ndim( weights ) == 0 :
+                return weights
+            weights = numpy.asarray( weights )
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
@@ -101,6 +104,19 @@ class MultipleOutputProblem( Problem ):
             weights = weights.flatten()
         return weights
 
+    def __getattr__( self, name ) :
+        """
+        Return value belonging to attribute with name.
+
+        Parameters
+        ----------
+        name : string
+            name of the attribute
+        """
+        if name == 'sumweight' and not self.hasWeights() :
+            return self.ydata.size              # number of residuals
+        return super().__getattr__( name )
+
     #  *****RESULT**************************************************************
     def result( self, param ):
         """
-- 
2.43.0


From bde206641be5206462d67cb626c8e98132127dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 024/111] fix: gradients of the likelihood to the scale when
 accuracy is given, for zero residuals, zero weights and more outputs

---
 .../source/BernoulliErrorDistribution.py      |  6 ++---
 .../source/CauchyErrorDistribution.py         | 10 ++++----
 .../source/ExponentialErrorDistribution.py    | 18 ++++++++++----
 .../source/LaplaceErrorDistribution.py        |  6 ++++-
 .../source/UniformErrorDistribution.py        | 24 +++++++++++--------
 5 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..63c3116 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,9 +176,9 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 71cbc1b..0829950 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -151,10 +151,10 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         res = problem.residuals( allpars[:-1] )
         res2 = numpy.square( res )
         if isinstance( scale, float ) :
-            logL = ( problem.ndata * ( math.log( scale ) - self.LOGPI ) -
+            logL = ( res2.size * ( math.log( scale ) - self.LOGPI ) -
                      numpy.sum( numpy.log( res2 + s2 ) ) )
         else :
-            logL = ( -problem.ndata * self.LOGPI + 
+            logL = ( -res2.size * self.LOGPI + 
                     numpy.sum( numpy.log( scale / ( res2 + s2 ) ) ) )
 
         return logL
@@ -218,8 +218,8 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
             if k >= 0 :
                 dL[i] = 2 * numpy.sum( res * dM[:,k] / r2s )
                 i += 1
-            else :
-                dL[-1] = problem.ndata / scale - numpy.sum( 2 * scale / r2s )
+            elif not problem.hasAccuracy :      ## accuracy is used instead of the scale
+                dL[-1] = res.size / scale - numpy.sum( 2 * scale / r2s )
 
         return dL
 
@@ -253,6 +253,8 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         for k in fitIndex :
             if k >= 0 :
                 yield 2 * res * dM[:,k] / r2s
+            elif problem.hasAccuracy :          ## accuracy is used instead of the scale
+                yield numpy.zeros_like( res )
             else :
                 yield 1.0 / scale - 2 * scale / r2s
 
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..d4caeaf 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -267,7 +267,9 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if problem.weights is not None :
             rsp = rsp * problem.weights
 
-        dLdm = power * rsp / res
+        dLdm = power * numpy.power( ars, power - 1 ) * numpy.sign( res ) / scale
+        if problem.weights is not None :
+            dLdm = dLdm * problem.weights
         dM = problem.partial( allpars[:-2] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
@@ -277,12 +279,14 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( dLdm * dM[:,k] )
                 i += 1
             elif k == -2 :
-                dL[-2] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                if not problem.hasAccuracy :    ## accuracy is used instead of the scale
+                    dL[i] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                i += 1
             else :
                 # special.psi( x ) is the same as special.polygamma( 1, x )
                 dldp = problem.sumweight * ( power + special.psi( 1.0 / power ) )
                 dldp /= ( power * power )
-                dldp -= ( numpy.sum( rsp * numpy.log( ars ) ) )
+                dldp -= ( numpy.sum( special.xlogy( rsp, ars ) ) )
                 dL[-1] = dldp
 
         return dL
@@ -319,7 +323,9 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         else :
             wgt = 1.0
 
-        dLdm = power * rsp / res
+        dLdm = power * numpy.power( ars, power - 1 ) * numpy.sign( res ) / scale
+        if problem.weights is not None :
+            dLdm = dLdm * problem.weights
         dM = problem.partial( param )
 ##      TBD import mockdata into partial
 #        dM = problem.partial( param, mockdata=mockdata )
@@ -330,10 +336,12 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         for  k in fitIndex :
             if k >= 0 :
                 yield ( dLdm * dM[:,k] )
+            elif k == -2 and problem.hasAccuracy :  ## accuracy is used instead of the scale
+                yield numpy.zeros_like( res )
             elif k == -2 :
                 yield ( power * rsp - wgt ) / scale
             else :
-                yield dlp - rsp * numpy.log( ars )
+                yield dlp - special.xlogy( rsp, ars )
 
 #        return
 
diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..fbd12bd 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -231,7 +231,9 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( wgt * dM[:,k] )
                 i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                if not problem.hasAccuracy :        ## accuracy is used instead of the scale
+                    dL[-1] = ( self.getSumRes( problem, allpars=allpars, scale=scale ) -
+                                problem.sumweight ) / scale
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
@@ -269,6 +271,8 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
         for k in fitIndex :
             if k >= 0 :
                 yield ( swgt * dM[:,k] ) / scale
+            elif problem.hasAccuracy :          ## accuracy is used instead of the scale
+                yield numpy.zeros_like( res )
             else :
                 yield ( res - wgt ) / scale
         return
diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..a59fda0 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -145,8 +145,10 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
         ares = numpy.abs( problem.residuals( allpars[:-1] ) )
+        if problem.weights is not None :
+            ares = numpy.where( problem.weights == 0, 0, ares )
 
-        if all( ares < scale ) :
+        if numpy.all( ares < scale ) :
             if isinstance( scale, float ) :
                 return - numpy.log( 2 * scale ) * problem.sumweight
             elif problem.hasWeights() :
@@ -172,16 +174,16 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:-1], mockdata=mockdata ) )
 
-        lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
+        lld = -numpy.log( 2 * scale )
         if problem.weights is not None :
-            lld *= problem.weights
-        return lld
+            lld = lld * problem.weights
+            ## data with zero weight do not contribute
+            ares = numpy.where( problem.weights == 0, 0, ares )
+        return numpy.where( ares < scale, lld, -math.inf )
 
 
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
@@ -201,7 +203,7 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        if fitIndex[-1] == -1 :
+        if fitIndex[-1] == -1 and not problem.hasAccuracy :
             dL[-1] = -problem.sumweight / allpars[-1]
         return dL
 
@@ -225,11 +227,13 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         scale = allpars[-1]
-        pll = numpy.zeros_like( problem.ydata )
+        pll = numpy.zeros( problem.ydata.size, dtype=float )
         if problem.weights is not None :
             wgt = problem.weights
         else :
-            wgt = numpy.ones_like( problem.ydata )
+            wgt = numpy.ones( problem.ydata.size, dtype=float )
+        if problem.hasAccuracy :            ## accuracy is used instead of the scale
+            wgt = pll
 
         for k in fitIndex :
             if k >= 0 :
-- 
2.43.0


From 343ad670fd0adc7c6312e6f68528c768d26a1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 025/111] fix: parameters kept in a fitter are kept at every
 fit; degrees of freedom, covariance and stdevs after a fit with kept
 parameters; limitsFit

---
 BayesicFitting/source/BaseFitter.py | 99 +++++++++++++----------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..c22ffb1 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -196,6 +196,7 @@ class BaseFitter( object ):
         self.model = model
         self.keep = keep
         self.fitIndex = self.keepFixed( keep )
+        self.lastIndex = self.fitIndex              # indices as used in the last fit
         self.fixedScale = fixedScale
 
         if self.ndim != model.ndim:
@@ -255,6 +256,8 @@ class BaseFitter( object ):
             ydata = numpy.asarray( ydata )
             if weights is not None :
                 weights = numpy.asarray( weights )
+            if Tools.length( accuracy ) > 1  :
+                accuracy = numpy.asarray( accuracy )
 
         self.weights = weights
         self.accuracy = accuracy
@@ -267,16 +270,15 @@ class BaseFitter( object ):
         if accuracy is not None :
             self.fitWgts /= ( accuracy * accuracy )
            
-        if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+        # keep parameters of this fit override those of the constructor
+        self.lastIndex = self.keepFixed( self.keep if keep is None else keep )
+        self.__dict__.pop( "hessian", None )        # remove the one of a previous fit
 
-        if self.fitIndex is None :
-            self.npfit = self.model.npchain
+        if self.lastIndex is None :
             return ( numpy.arange( self.model.npchain, dtype=int ), 
                      ydata, self.fitWgts )
 
-        self.npfit = len( self.fitIndex )
-        return ( self.fitIndex, ydata, self.fitWgts )
+        return ( self.lastIndex, ydata, self.fitWgts )
 
     def fitpostscript( self, ydata, plot=False ) :
         """
@@ -311,7 +313,7 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
+            self.npfit = self.model.npchain - len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
@@ -393,54 +395,43 @@ class BaseFitter( object ):
         """
         pars = self.fit( ydata, weights=weights, keep=keep )          # perform the fit
 
-        if self.model.priors is None :                  # no priors -> no limits
-            return pars
-
-        sfix = self.keep                                # save original fixed setting
+        keep = self.keep if keep is None else keep      # overrides the original setting
+        fix = {} if keep is None else dict( keep )
 
-        npchain = self.model.npchain
+        low, high = self.getParameterLimits()
         params = self.model.parameters
-        index = self.fitIndex
-#        print( "index  ", fmt( index ) )
-        if index is None :
-            index = [*range( npchain )]                 # unpack range object into list
-            fix = {}
-        else :
-            fix = sfix.copy()
-
-        if keep is not None :
-            for k in keep.keys() : 
-                fix[k] = keep[k]
-
-#        print( "index  ", fmt( index ) )
-#        print( "fix    ", fmt( fix ) )
-
-        ool = 0
-        for k in index :                                    # check limits for params
-            if params[k] < self.model.getPrior( k ).lowLimit :
-                params[k] = self.model.getPrior( k ).lowLimit
-                fix[k] = params[k]
-                ool += 1
-            elif params[k] > self.model.getPrior( k ).highLimit :
-                params[k] = self.model.getPrior( k ).highLimit
-                fix[k] = params[k]
-                ool += 1
-
-        if ool > 0 :                                        # some transgressions
-            print( "ool    ", fmt( ool ), fmt( fix ) )
-            self.keepFixed( fix )                           # fix them
+
+        nfix = len( fix )
+        for k in range( self.model.npchain ) :              # check limits for params
+            if k in fix :
+                continue
+            if params[k] < low[k] :
+                fix[k] = low[k]
+            elif params[k] > high[k] :
+                fix[k] = high[k]
+
+        if len( fix ) > nfix :                              # some transgressions
             pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
-#            print( "pars   ", fmt( pars, max=None ) )
-#            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
-#            warnings.warn( "Parameters ", fix, " exceeded limits." )
 
         return pars                                         # return parameters
 
 
+    def getParameterLimits( self ) :
+        """
+        Return low and high limits for all parameters, as present in the priors of the model.
+        They are -inf and +inf when there are none.
+        """
+        low = numpy.full( self.model.npchain, -math.inf )
+        high = numpy.full( self.model.npchain, math.inf )
+        for k in range( self.model.npchain ) :
+            try :
+                prior = self.model.getPrior( k )
+            except IndexError :                             # no priors -> no limits
+                continue
+            low[k] = prior.lowLimit
+            high[k] = prior.highLimit
+        return ( low, high )
+
     def fit( self, ydata, weights=None, keep=None ) :
         """
         Return model parameters fitted to the data.
@@ -488,7 +479,7 @@ class BaseFitter( object ):
         if  accuracy is not None :
             if not numpy.all( numpy.isfinite( accuracy ) ) :
                 raise ValueError( "Fitter: NaNs or Infs in accuracy" )
-            if not numpy.all( accuracy > 0 ) :
+            if not numpy.all( numpy.asarray( accuracy ) > 0 ) :
                 raise ValueError( "Fitter: zeros or negatives in accuracy" )
 
     def __getattr__( self, name ) :
@@ -516,7 +507,7 @@ class BaseFitter( object ):
         elif name == 'design' :
             return self.getDesign()
         elif name == 'hessian' :
-            return self.getHessian()
+            return self.getHessian( index=self.lastIndex )
         elif name == 'covariance' :
             return self.getCovarianceMatrix()
         elif name == 'stdevs' or name == 'standardDeviations' :
@@ -629,7 +620,7 @@ class BaseFitter( object ):
         Stdevs are found from this as np.sqrt( np.diag( covarianceMatrix ) )
 
         """
-        cov =  self.getInverseHessian( index=self.fitIndex ) * self.makeVariance()
+        cov =  self.getInverseHessian( index=self.lastIndex ) * self.makeVariance()
         return cov
 
     #  *************************************************************************
@@ -765,11 +756,11 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
+        if self.lastIndex is None :
             self.model.stdevs = stdevs
         else :
             intostd = numpy.zeros( self.model.npchain, dtype=float )
-            self.model.stdevs = self.insertParameters( stdevs, into=intostd )
+            self.model.stdevs = self.insertParameters( stdevs, index=self.lastIndex, into=intostd )
 
         return self.model.stdevs
 
@@ -798,7 +789,7 @@ class BaseFitter( object ):
         if xdata is None : xdata = self.xdata
         if monteCarlo is None :
             monteCarlo = MonteCarlo( xdata, self.model, self.covariance,
-                                          index=self.fitIndex )
+                                          index=self.lastIndex )
 
         return monteCarlo.getError( xdata )
 
-- 
2.43.0


From 58096fcc5c647bc9ed916ae5adb4659e947e9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 026/111] fix: null models and normalization with kept
 parameters in the linear Fitter

---
 BayesicFitting/source/Fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..ac86776 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
@@ -144,7 +144,8 @@ class Fitter( BaseFitter ):
         if fitWgts is not None :
             ydatacopy *= fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
-- 
2.43.0


From b873939ba5e654d307d95c079ee8d34eb6dede3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 027/111] fix: QRFitter minimizes the weighted chisq, also for
 normalizations; new decomposition when weights or indices change

---
 BayesicFitting/source/QRFitter.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..6a8b19e 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -140,7 +140,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
@@ -153,16 +153,21 @@ class QRFitter( BaseFitter ):
 #        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
 #                 numpy.sqrt( fitwgts ) )
 
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
+            normweight = numpy.sqrt( self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata )
             wgts = numpy.append( wgts, normweight )
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        # the decomposition is not valid for other weights, normalizations or indices
+        valid = ( self.qrmat is not None and numpy.array_equal( wgts, self.qrwgts ) and
+                  numpy.array_equal( fi, self.qrindex ) )
+
+        if self.needsNewDecomposition or not valid :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -171,6 +176,8 @@ class QRFitter( BaseFitter ):
 
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
+            self.qrwgts = wgts
+            self.qrindex = fi
             self.needsNewDecomposition = False
 
         params = numpy.dot( self.qrmat, ydatacopy )
-- 
2.43.0


From 4ce401b75e72006d5cf24e8eeaa68f6ae13f3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 028/111] fix: CurveFitter: parameters kept in one fit, limits
 of the fitted parameters

---
 BayesicFitting/source/CurveFitter.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..f3eea85 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -129,19 +129,18 @@ class CurveFitter( IterativeFitter ):
         # Check for limits
         if limits is not None :
             bounds = limits
-        elif self.model.priors :
-            bounds = self.model.getLimits()
         else :
-            bounds = ( -numpy.inf, numpy.inf )
+            bounds = self.getParameterLimits()
 
-        # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
+        # Only the bounds on the parameters to be fitted
+        npar = self.model.npchain
+        bounds = [numpy.broadcast_to( b, npar )[fitIndex] for b in bounds]
+        if not numpy.any( numpy.isfinite( bounds ) ) :
+            bounds = ( -numpy.inf, numpy.inf )
 
         # Make initial parameters
-        p0 = self.model.parameters if inipar is None else inipar
-        if fitIndex is not None :
-            p0 = p0[fitIndex]
+        p0 = numpy.asarray( self.model.parameters if inipar is None else inipar )
+        p0 = p0[fitIndex]
 
         ydat = ydata
         # Normalize the data when needed.
@@ -196,7 +195,7 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.lastIndex )
         res = self.model.result( xdata, params )
         if hasattr( self, "normdfdp" ) :
             extra = numpy.inner( self.normdfdp, params )
@@ -216,8 +215,8 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.lastIndex )
 
-        design = self.getDesign( params=params, xdata=xdata, index=self.fitIndex )
+        design = self.getDesign( params=params, xdata=xdata, index=self.lastIndex )
         return design
 
-- 
2.43.0


From 2f4711c09885d035ab87187605010404f9709c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 029/111] fix: AnnealingAmoeba: aliased arrays, low limits,
 altered start values

---
 BayesicFitting/source/AmoebaFitter.py    |  4 +++-
 BayesicFitting/source/AnnealingAmoeba.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..3d5cb07 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -168,6 +168,7 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
         if par0 is None :
             par0 = self.model.parameters
+        par0 = numpy.asarray( par0, dtype=float )
         if fitIndex is not None and len( fitIndex ) < len( par0 ) :
             par0 = par0[fitIndex]
 
@@ -179,7 +180,8 @@ class AmoebaFitter( MaxLikelihoodFitter ):
         if temp is not None :
             kwargs["temp"] = temp
         if limits is not None :
-            kwargs["limits"] = limits
+            npar = self.model.npchain           ## limits on the parameters to be fitted
+            kwargs["limits"] = [numpy.broadcast_to( lim, npar )[fitIndex] for lim in limits]
         if maxiter is not None :
             kwargs["maxiter"] = maxiter
         if tolerance is not None :
diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..d414e3a 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -191,7 +191,7 @@ class AnnealingAmoeba( object ):
         self.temp = temp
         nfit = Tools.length( xini )
         if Tools.length( size ) == 1 :
-            size = [size] * nfit
+            size = numpy.full( nfit, size, dtype=float )
 
         if limits is None :
             self.lolimits = None
@@ -235,6 +235,8 @@ class AnnealingAmoeba( object ):
 
         """
         nfit = len( xini )
+        xini = numpy.array( xini, dtype=float )         # copies, as they might be altered
+        step = numpy.array( step, dtype=float )
 
         i = 0
         for ir in xini :
@@ -278,7 +280,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
@@ -451,7 +453,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
@@ -552,7 +554,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
@@ -565,7 +567,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From 42eefc43d018c68d6193367d15e0d93dc63829f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 030/111] fix: LevenbergMarquardtFitter: start values are not
 altered, limits as argument, undamped hessian

---
 .../source/LevenbergMarquardtFitter.py        | 40 ++++++++++---------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..dbcfc47 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,7 +181,13 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
+        trypar = numpy.array( self.model.parameters, dtype=float )
+        if par0 is not None :                           # except for the kept parameters
+            trypar[fitIndex] = numpy.asarray( par0, dtype=float )[fitIndex]
+        if limits is None :
+            self.limits = self.getParameterLimits()
+        else :
+            self.limits = [numpy.broadcast_to( lim, len( trypar ) ) for lim in limits]
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
@@ -204,6 +210,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                 self.chi = trychi
                 self.report( verbose, trypar, trychi, more=math.log10( self.lamda ), force=True )
                 self.converged = True
+                self.getHessian( params=trypar, weights=fitWgts, index=fitIndex )
 
                 self.fitpostscript( data, plot=plot )
                 return trypar                   # we are done.
@@ -307,24 +314,19 @@ class LevenbergMarquardtFitter( IterativeFitter ):
 
         """
         onedge = False
-#        if self.model.priors is not None and self.model.priors.hasLimits( ):
-        if self.model.priors is not None :
-            fitin = []
-            for i,k in enumerate( fitindex ) :
-                pr = self.model.getPrior( k )
-                if pr.hasLowLimit( ) and fitpar[i] < pr.lowLimit :
-                    fitpar[i] = pr.lowLimit
-                    onedge = True
-                elif pr.hasHighLimit( ) and fitpar[i] > pr.highLimit :
-                    fitpar[i] = pr.highLimit
-                    onedge = True
-                else:
-                    fitin += [k]
-
-            return ( onedge, fitpar, fitin )
-        else:
-            return ( onedge, fitpar, fitindex )
-
+        low, high = self.limits
+        fitin = []
+        for i,k in enumerate( fitindex ) :
+            if fitpar[i] < low[k] :
+                fitpar[i] = low[k]
+                onedge = True
+            elif fitpar[i] > high[k] :
+                fitpar[i] = high[k]
+                onedge = True
+            else:
+                fitin += [k]
+
+        return ( onedge, fitpar, fitin )
 
 
 
-- 
2.43.0


From fe6db6472c03759e0932905cb7f38a6a52d55b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 031/111] fix: ScipyFitter: automatic method, start values,
 limits, tolerance and maxiter as documented

---
 BayesicFitting/source/ScipyFitter.py | 67 +++++++++++++---------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..0cf0c03 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,13 +165,11 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
 
-        numpy.set_printoptions(formatter={'float': '{: 0.3f}'.format})
-
 
     #  *************************************************************************
     def fit( self, data, weights=None, par0=None, keep=None, limits=None,
@@ -225,14 +223,17 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        if maxiter is None : maxiter = self.maxIter
+        if tolerance is None : tolerance = self.tolerance
+
+        par0 = self.model.parameters if par0 is None else numpy.asarray( par0, dtype=float )
+        inipar = par0[fitIndex]
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
+        # limits on the parameters to be fitted, as pairs of (low,high)
+        if limits is not None :
+            npar = self.model.npchain
+            limits = [numpy.broadcast_to( lim, npar )[fitIndex] for lim in limits]
+            limits = list( zip( *limits ) )
 
         if self.method is None:
             # Select automatically
@@ -245,8 +246,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
-        print( self.method )
-
         # - hessp
         useHessian = self.method in ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
         if ( not useHessian and hasattr( self, "userHessp" ) and self.userHessp is not None ) :
@@ -281,64 +280,62 @@ class ScipyFitter( MaxLikelihoodFitter ):
             options = {}
 
         if self.method == 'NELDER-MEAD':
-            options.setdefault( 'xatol', self.tolerance )
-            options.setdefault( 'fatol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xatol', tolerance )
+            options.setdefault( 'fatol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
         elif self.method == 'POWELL':
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
         elif self.method == 'CG':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
         elif self.method == 'BFGS':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
         elif self.method == 'NEWTON-CG':
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         elif self.method == 'L-BFGS-B':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'TNC':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'COBYLA':
-            options.setdefault( 'tol', self.tolerance )
+            options.setdefault( 'tol', tolerance )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
         elif self.method == 'SLSQP':
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
         elif self.method == 'DOGLEG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
         elif self.method == 'TRUST-NCG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
             raise ValueError('Unknown solver %s' % self.method)
 
-        print( res )
-
         parameters = self.insertParameters( res["x"], index=fitIndex )
         self.model.parameters = parameters
 
-- 
2.43.0


From 732e09e6326aa11472bc8bc92d904b3ba9446ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 032/111] fix: hessian of chisq with kept parameters

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..cbfc9ad 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
-- 
2.43.0


From 571640d24bd572a210890124ab086736a7c98f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 033/111] fix: evidence with a fitted noise scale, priors of
 compound models, kept parameters and weighted accuracies

---
 BayesicFitting/source/BaseFitter.py | 42 +++++++++++------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index c22ffb1..495d6ec 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -855,7 +855,8 @@ class BaseFitter( object ):
 
         if self.accuracy is not None :
             if Tools.length( self.accuracy ) > 1 :
-                slacc = numpy.sum( numpy.log( self.accuracy ) )
+                wgts = 1.0 if self.weights is None else self.weights
+                slacc = numpy.sum( wgts * numpy.log( self.accuracy ) )
             else :
                 slacc = self.sumwgt * numpy.log( self.accuracy )
         else :
@@ -900,7 +901,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            self.logOccam = 0.5 * math.log( math.pi / dof ) - math.log( scalerange )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
@@ -908,9 +909,6 @@ class BaseFitter( object ):
             s2 = scale * scale
             self.logOccam = 0.0
 
-        # add integral over the scale prior, if scale is to be fitted.
-        spr = math.log( scalerange ) if autoScale else 0.0
-
         # obtain the loglikelihood.
         self.logLikelihood = self.getLogLikelihood( autoscale=autoScale, var=s2 )
 #        print( "BF2    ", self.logLikelihood )
@@ -919,32 +917,24 @@ class BaseFitter( object ):
         if self.npfit == 0 :
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
+        # indices of the parameters in the last fit
+        index = range( self.model.npchain ) if self.lastIndex is None else self.lastIndex
+
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
-        elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
-        elif self.model.npchain > 0 :
-            raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
-
-        priorlength = Tools.length( prirange )                         # maybe less than npar
-        prirange = numpy.log( numpy.asarray( prirange ) )
-
-        if priorlength == 1 :
-            spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
-            fi = self.fitIndex
-            q = numpy.where( fi < priorlength )
-            fq = fi[q]
-            priorlength = len( fq )
-            spr += numpy.sum( prirange[fq] )
+            priorlength = Tools.length( prirange )                     # maybe less than npar
+            if priorlength != self.npfit :
+                prirange = [prirange[min( k, priorlength - 1 )] for k in index]
+        elif self.model.hasLimits( fitindex=index ) :
+            prirange = [self.model.getPrior( k ).getIntegral() for k in index]
         else :
-            spr += numpy.sum( prirange )
+            raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
-        if priorlength < self.npfit :                          # add enough times the last one
-            spr += ( self.npfit - priorlength ) * prirange[-1]
+        # integral over the priors
+        spr = numpy.sum( numpy.log( prirange ) )
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        hessian = self.getHessian( index=self.lastIndex )
+        lidet = numpy.linalg.slogdet( hessian )[1]
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
-- 
2.43.0


From 71f6e347410d060a7a914a9a1ced6be837046919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 034/111] fix: MonteCarlo has its own random generator; no NaN
 when there is no variation

---
 BayesicFitting/source/MonteCarlo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/MonteCarlo.py b/BayesicFitting/source/MonteCarlo.py
index db66888..466d315 100644
--- a/BayesicFitting/source/MonteCarlo.py
+++ b/BayesicFitting/source/MonteCarlo.py
@@ -97,14 +97,14 @@ class MonteCarlo( object ):
         self.model = model
         self.index = index
         self.mcycles = mcycles
-        self._random = numpy.random
-        self._random.seed( seed )
+        self.seed = seed
+        self._random = numpy.random.RandomState( seed )
         self.decompose( covariance )
 
     def decompose( self, covariance ):
         val, vec = numpy.linalg.eigh( covariance )
         self._eigenvectors = vec
-        self._eigenvalues = numpy.sqrt( val )
+        self._eigenvalues = numpy.sqrt( numpy.maximum( val, 0.0 ) )
 
     #  *****MONTE CARLO ERROR***************************************************
     def getError( self, xdata=None ):
@@ -135,7 +135,7 @@ class MonteCarlo( object ):
             sm2 += numpy.square( model )
         sm1 /= self.mcycles
         sm2 /= self.mcycles
-        return numpy.sqrt( sm2  - sm1 * sm1 )
+        return numpy.sqrt( numpy.maximum( sm2  - sm1 * sm1, 0.0 ) )
 
     def randomVariant( self, xdata ):
         """
@@ -162,7 +162,7 @@ class MonteCarlo( object ):
     #  *************************************************************************
     def __str__( self ):
         """ Return name of the class.  """
-        return "MonteCarlo with seed %d and %d cycles" % (self._random.seed, self.mcycles)
+        return "MonteCarlo with seed %d and %d cycles" % (self.seed, self.mcycles)
 
 
 
-- 
2.43.0


From cd274a6f35a7eb2622c75fddb4011a6432e6e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 035/111] fix: hessian after a scipy fit is that at the
 solution

---
 BayesicFitting/source/ScipyFitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 0cf0c03..f6358c9 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -338,6 +338,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         parameters = self.insertParameters( res["x"], index=fitIndex )
         self.model.parameters = parameters
+        self.__dict__.pop( "hessian", None )        # not necessarily at the solution
 
         if self.errdis is None :
             self.chisq = res["fun"]
-- 
2.43.0


From b6c266ee9b3745e53cae774abb159c0def942069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 036/111] fix: ImageAssistant with order F lists indices and
 data in different pixel orders; the order arguments are honoured

---
 BayesicFitting/source/ImageAssistant.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index 866dd67..d8f0fed 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -90,7 +90,7 @@ class ImageAssistant( object ):
         self.order = order
         self.shape = None
 
-    def getIndices( self, ya, order='C' ):
+    def getIndices( self, ya, order=None ):
         """
         Generates indices for data arrays of any dimension.
 
@@ -100,7 +100,8 @@ class ImageAssistant( object ):
         ----------
         ya : map
             array of y ( data ) values for which an indexed array
-        order : 'C' or 'F'
+        order : None or 'C' or 'F'
+            None : as in the constructor
             set index view according to character
 
         Returns
@@ -109,6 +110,7 @@ class ImageAssistant( object ):
 
         """
         self.shape = ya.shape
+        order = self.order if order is None else order
 
         size = ya.size
         rank = ya.ndim
@@ -122,14 +124,14 @@ class ImageAssistant( object ):
             kr = rank - 1
             for k in range( rank ) :
                 for i in range( size ) :
-                    kk = kr if self.order == 'C' else k
+                    kk = kr if order == 'C' else k
                     kdata[i,kk] = ( i // dd ) % self.shape[kr]
                 dd *= self.shape[kr]
                 kr -= 1
 
             return kdata
 
-    def getPositions( self, ymap, order='C', center=True, deproject=None ) :
+    def getPositions( self, ymap, order=None, center=True, deproject=None ) :
         """
         Return the (x,y) positions of the pixels in the map.
 
@@ -168,7 +170,7 @@ class ImageAssistant( object ):
         ya : array_like
             map to be reshaped
         """
-        return numpy.reshape( ya.copy(), ya.size, order=self.order )
+        return numpy.reshape( ya.copy(), ya.size )
 
     def resizeData( self, res, shape=None ):
         """
@@ -185,7 +187,7 @@ class ImageAssistant( object ):
         if shape is None :
             shape = self.shape
 
-        return numpy.reshape( res, shape, order=self.order )
+        return numpy.reshape( res, shape )
 
 
 
-- 
2.43.0


From 7e7dddc6538ed4e4cbc5e72e40b1ed01b55548e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 037/111] fix: RobustShell with maps, alters the weights in
 place, and lacks derived quantities of the fitter

---
 BayesicFitting/source/RobustShell.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9410403..e686274 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -230,19 +230,21 @@ class RobustShell( IterativeFitter ):
 
         param = self.fitter.fit( data, weights, **kwargs )
         self.npfit = self.fitter.npfit
+        isMap = self.fitter.imageAssistant is not None
+        ydata = self.fitter.imageAssistant.getydata( data ) if isMap else numpy.asarray( data )
         chi = self.fitter.chisq
 
         while self.iter < self.maxIter :
 
-            residuals = data - self.model.result( self.xdata, param )
+            residuals = ydata - self.model.result( self.xdata, param )
             scale = self.fitter.scale
             residuals /= ( scale * domain )
             robwgt = kernelfunc( residuals )
             robwgt = self.getOneSidedWeights( robwgt, residuals, onesided )
 
-            self.weights = robwgt
+            self.weights = self.fitter.imageAssistant.resizeData( robwgt ) if isMap else robwgt
             if weights is not None :
-                self.weights *= weights
+                self.weights = self.weights * weights
             param = self.fitter.fit( data, self.weights, **kwargs )
 
             trychi = self.fitter.chisq
@@ -256,7 +258,12 @@ class RobustShell( IterativeFitter ):
             chi = trychi
             self.iter += 1
 
-        self.hessian = self.fitter.getHessian()
+        # for the quantities derived from the fit
+        self.fitWgts = self.fitter.fitWgts
+        self.sumwgt = self.fitter.sumwgt
+        self.lastIndex = self.fitter.lastIndex
+        self.imageAssistant = self.fitter.imageAssistant
+        self.hessian = self.fitter.getHessian( index=self.lastIndex )
         self.chisq = trychi
 
         return param
-- 
2.43.0


From 6dab4caaee012f48505442a54e18b2a4df793d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 038/111] fix: number of data points of a map is its number of
 pixels

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 495d6ec..6f98f9e 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -190,7 +190,7 @@ class BaseFitter( object ):
 
             ndim = 1 if self.xdata.ndim <= 1 else self.xdata.shape[1]
 
-        ninp = Tools.length( xdata )
+        ninp = Tools.length( self.xdata )
         self.nxdata = ninp
         self.ndim = ndim
         self.model = model
-- 
2.43.0


From b18320aa1406317bbcfb5def8960907ab7fc1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 039/111] fix: check on degenerate simplex looks along the
 wrong axis

---
 BayesicFitting/source/AnnealingAmoeba.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index d414e3a..e5a6771 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -326,12 +326,11 @@ class AnnealingAmoeba( object ):
         """
         dim = simplex.shape
         for i in range( dim[1] ) :
-            same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
-                print( simplex[i,:] )
+                print( simplex[:,i] )
                 raise ValueError( "Simplex is degenerate at index %d"%i )
 
     def setValues( self ):
-- 
2.43.0


From 6ab92fc74eb0fba4f141b4f0c50c76790a191070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 040/111] fix: copy of NoiseScale keeps its prior;
 hyperparameters with limits are not fixed

---
 BayesicFitting/source/HyperParameter.py         | 2 +-
 BayesicFitting/source/MixedErrorDistribution.py | 1 +
 BayesicFitting/source/NoiseScale.py             | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..b61de93 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -88,7 +88,7 @@ class HyperParameter( object ):
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
-
+            self.isFixed = False
 
         if copy is not None :
             self.hypar = copy.hypar
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 4d8f711..1616108 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -97,6 +97,7 @@ class MixedErrorDistribution( ErrorDistribution ):
             self.hyperpar = errdis1.hyperpar + errdis2.hyperpar
             fprior = UniformPrior( )
             fraction = HyperParameter( hypar=fraction, prior=fprior, limits=limits )
+            fraction.isFixed = limits is None
             self.hyperpar += [fraction]
 
     def copy( self ):
diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
-- 
2.43.0


From cb53c48c5b2966e525a825694304c169068cac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 041/111] fix: keep parameters in NestedSampler when
 hyperparameters are fixed

---
 BayesicFitting/source/NestedSampler.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..3ecdf28 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -537,16 +537,10 @@ class NestedSampler( object ):
 
         nh = self.distribution.nphypar
         if keep is not None :
-            fitl = []
-            kkeys = list( keep.keys() )
-            for k in range( np + nh ) :
-                if k in kkeys :
-                    allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
-            fitlist = fitl
+            for k in keep :
+                allpars[k] = keep[k]                        # save keep.value in allpars
+            ## list of pars to be fitted; hyperparameters can be kept by either index
+            fitlist = [k for k in fitlist if not ( k in keep or ( k < 0 and k + np + nh in keep ) )]
 
         return ( fitlist, allpars )
 
-- 
2.43.0


From 322f41a59321c14c56578b6535ad3fecf5f4b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 042/111] fix: derived attributes of SampleList: stdevHypars,
 stale values, NaNs in errors

---
 BayesicFitting/source/SampleList.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..3735af1 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -147,9 +147,9 @@ class SampleList( list ):
             return self.stdevs
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
+        elif name == "stdevHypars" or name == "stdevHypar" :
             self.getHypars()
-            return self.stdevHypar
+            return self.stdevHypars
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
@@ -187,6 +187,14 @@ class SampleList( list ):
 
         return None
 
+    def reset( self ) :
+        """
+        Remove attributes derived from the list: the list is going to be changed.
+        """
+        for name in ["parameters", "stdevs", "hypars", "stdevHypars", "stdevNuis",
+                     "medianIndex", "modusIndex"] :
+            self.__dict__.pop( name, None )
+
     # ===========================================================================
     def sample( self, k, sample=None ) :
         """
@@ -200,6 +208,7 @@ class SampleList( list ):
             if present, set the kth sample with sample
         """
         if sample is not None :
+            self.reset()
             self[k] = sample
 
         return self[k]
@@ -211,6 +220,7 @@ class SampleList( list ):
         make Sum( weight ) = 1
 
         """
+        self.reset()
         self.normalized = True
         lwev = self.getLogWeightEvolution()
 
@@ -233,6 +243,7 @@ class SampleList( list ):
             the sample to be added
 
         """
+        self.reset()
         sample.parent = sample.id       ## where it is from
         sample.id = self._count
         self._count += 1
@@ -251,6 +262,7 @@ class SampleList( list ):
             the destination item
 
         """
+        self.reset()
         id = self[des].id
         self[des] = self[src].copy()
         self[des].id = id
@@ -269,6 +281,7 @@ class SampleList( list ):
         if maxsize is None :
             return
 
+        self.reset()
         while len( self ) > maxsize :
             if self[0].logW < self[-1].logW :
                 self.remove( self[0] )
@@ -533,7 +546,7 @@ class SampleList( list ):
             sumwgt += wgt
 
 #        self.error = numpy.sqrt( ( error - result * result ) / self.ndata )
-        self.error = numpy.sqrt( error - result * result )
+        self.error = numpy.sqrt( numpy.maximum( error - result * result, 0 ) )
         self.result = result
 
         return self.result
@@ -558,7 +571,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From 3473951030058e0ef584c4701befafc827efd331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 043/111] fix: nested sampling: shares of the prior volume when
 more than one walker is discarded, final walkers unsorted, information,
 maxsize, logZ in the samples

---
 BayesicFitting/source/NestedSampler.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 3ecdf28..46daff2 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -434,11 +434,11 @@ class NestedSampler( object ):
         self.logZ = -sys.float_info.max
         self.logdZ = 0
         self.info = 0
-        self.logWidth = math.log( 1.0 - math.exp( -1.0 / self.ensemble ) )
+        self.logVolume = 0                      # log of the remaining prior volume
 
-#        TBD put self.logWidth in the saved file too
+#        TBD put self.logVolume in the saved file too
 #        if self.optionalRestart() :
-#            self.logWidth -= self.iteration * ( 1.0 * self.discard ) / self.ensemble
+#            self.logVolume -= self.iteration * ( 1.0 * self.discard ) / self.ensemble
 
         self.histinsert = []
         ## iterate until done
@@ -467,10 +467,12 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
+        self.samples.weed( self.maxsize )           # remove overflow in samplelist
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
@@ -757,13 +759,18 @@ class NestedSampler( object ):
         """
 
         for kw in range( worst ) :
-            logWeight = self.logWidth + self.walkers[kw].logL + self.walkers[kw].logPrior
+            # each walker takes its share of the remaining volume
+            shrink = 1.0 / ( self.ensemble - kw )
+            logWidth = self.logVolume + math.log( -math.expm1( -shrink ) )
+            self.logVolume -= shrink
+
+            logWeight = logWidth + self.walkers[kw].logL + self.walkers[kw].logPrior
 
             # update evidence, logZ
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * self.walkers[kw].logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
@@ -774,8 +781,6 @@ class NestedSampler( object ):
             smpl = self.walkers[kw].toSample( logWeight )
             self.samples.add( smpl )
 
-            self.logWidth -= 1.0 / ( self.ensemble - kw )
-
         self.logdZ = logWeight - self.logZ
 
         return
-- 
2.43.0


From 92f1b70f79eff0857304c9621ab205866d6ee5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 044/111] fix: PhantomSampler removes walkers of high
 likelihood when ensemble is not 100; ensembles below 25

---
 BayesicFitting/source/PhantomSampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..9589d76 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
@@ -246,6 +246,7 @@ class PhantomSampler( NestedSampler ):
             number of walkers to update
         """
         self.walkers[:worst] = []
+        ks = len( self.walkers )                # from here on all walkers are new
 
 #        e0 = self.engines[0]
 #        print( "updateW  ", worst, len( self.walkers ), fma( e0.unitRange, linelength=200 ) )
@@ -259,7 +260,6 @@ class PhantomSampler( NestedSampler ):
 
 
         while len( self.walkers ) > self.initEnsemble :
-            ks = self.initEnsemble - self.step
             k = ks + self.rng.randint( self.ensemble - ks - 1 )
 #            print( k, self.ensemble, len( self.walkers ), self.walkers[-1].logL )
             del( self.walkers[k] )
-- 
2.43.0


From 9ce9e083b8ea1d610bea77bffa3ded5445d4989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 045/111] fix: second call to sample continues in the results
 of the first

---
 BayesicFitting/source/NestedSampler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 46daff2..92714ee 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -493,10 +493,17 @@ class NestedSampler( object ):
 
         if ensemble is None :
             ensemble = self.ensemble
+
+        ## start from scratch, also when it is not the first run
+        self.iteration = 0
+        self.samples = SampleList( self.problem.model, 0, ndata=self.problem.ndata )
+        self.phantoms = PhantomCollection( dynamic=self.problem.isDynamic() )
+
         self.initWalkers( ensemble, allpars, fitIndex )
 
         for eng in self.engines :
             eng.walkers = self.walkers
+            eng.phantoms = self.phantoms
             eng.lastWalkerId = len( self.walkers )
             if self.bestBoost :
                 eng.bestBoost( self.problem, myFitter=self.myFitter )
-- 
2.43.0


From b9698b0ec8d769eae507c210d44658ade01f083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 046/111] fix: RandomEngine draws in the range of the wrong
 parameters when some are kept

---
 BayesicFitting/source/RandomEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..350e09c 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -106,8 +106,9 @@ class RandomEngine( Engine ):
         param = walker.allpars
         
         ## Make a unit box to find a new walker in
-        nap = len( param )
         um, ux = self.getUnitMinmax( problem, lowLhood )
+        um = um[fi]
+        ux = ux[fi]
 
         mlen = len( self.walkers )
         dr = 10 * ( ux - um ) / mlen
@@ -121,7 +122,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um, ux, nf )
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 1fda2c124b37424fb4c2b84666a502137dd30cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 047/111] fix: walkers keep their identity when stored as
 phantom; hyperparameters of walkers with nuisance parameters

---
 BayesicFitting/source/Walker.py     | 2 +-
 BayesicFitting/source/WalkerList.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9a597e9..9e123bb 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -148,7 +148,7 @@ class Walker( object ):
             np = self.problem.model.npars
             return self.allpars[:np]
         elif name == "hypars" :
-            np = self.problem.model.npars
+            np = self.problem.npars
             if len( self.allpars ) > np :
                 return self.allpars[np:]
             else :
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..22ff2dd 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )                ## keep its identity
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From 53e0b421222e2e0c18ca6ab64ea8f7239d02a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 048/111] fix: GalileanEngine wanders out of the prior where
 the likelihood is zero

---
 BayesicFitting/source/GalileanEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 137872d..9355c93 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -260,6 +260,8 @@ class GalileanEngine( Engine ):
         b = 4 * Lm - L1 - 3 * L0
         a = 2 * L0 - 4 * Lm  + 2 * L1
 
+        if not ( math.isfinite( a ) and math.isfinite( b ) ) :
+            return 0.5          ## impossible parameters: the edge is somewhere in between
         if a == 0 :
             return 1 if b == 0 else ( lowL - c ) / b
 
@@ -339,7 +341,7 @@ class UnitMovements( object ):
         """
         inprod = numpy.sum( dLdp * self.uvel )
         sumsq  = numpy.sum( dLdp * dLdp )
-        if sumsq == 0 : return
+        if sumsq == 0 or not math.isfinite( sumsq ) : return
 
         self.uvel -= 2 * dLdp * inprod / sumsq
 
-- 
2.43.0


From 4a32ab0424c323f41489c5cfc621611af220bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 049/111] fix: PhantomSampler keeps its ensemble after the
 initial exploration; check on walkers with nuisance parameters

---
 BayesicFitting/source/Explorer.py       | 13 ++++++++-----
 BayesicFitting/source/NestedSampler.py  |  4 +++-
 BayesicFitting/source/PhantomSampler.py |  2 +-
 BayesicFitting/source/Tools.py          |  2 +-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..741f561 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -254,15 +254,18 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        np = walker.problem.npars               # includes the nuisance parameters
+        model = walker.problem.model            # None in order problems
+        if model is not None :
+            walker.check( nhyp=self.errdis.nphypar, nuisance=np - model.npars )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if np < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
             raise ValueError( "Inconsistency in length of modelparams (%d) and allpars (%d - %d)" %
-                                ( walker.problem.model.npars, len( walker.allpars ), self.errdis.nphypar ) )
+                                ( np, len( walker.allpars ), self.errdis.nphypar ) )
 
         if wlogL != walker.logL :
             Tools.printclass( walker )
@@ -275,8 +278,8 @@ class Explorer( object ):
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
                 self.errdis.hyperpar[ki].prior.checkLimit( walker.allpars[ki] )
-            elif ki < walker.problem.model.npars :
-                walker.problem.model.getPrior( ki ).checkLimit( walker.allpars[ki] )
+            elif model is not None and ki < model.npars :
+                model.getPrior( ki ).checkLimit( walker.allpars[ki] )
 
 
 class ExplorerThread( Thread ):
diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 92714ee..28b1bc6 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -427,7 +427,9 @@ class NestedSampler( object ):
         if not isinstance( self.problem.model, LinearModel ) :
             self.lowLhood = -sys.float_info.max
             # Explore all walker(s)
-            explorer.explore( range( self.ensemble ), self.lowLhood, self.iteration )
+            ensemble = self.ensemble
+            explorer.explore( range( ensemble ), self.lowLhood, self.iteration )
+            del( self.walkers[ensemble:] )      # remove appended walkers, if any
             self.iteration = 0                  # reset iteration number
 
 
diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 9589d76..1873f4f 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -253,7 +253,7 @@ class PhantomSampler( NestedSampler ):
 
         while len( self.walkers ) <= self.initEnsemble :
             # Explore the copied walker(s)
-            wlist = [self.rng.randint( worst, self.ensemble )]
+            wlist = [self.rng.randint( self.ensemble )]     # the worst are removed already
             explorer.explore( wlist, self.lowLhood, self.iteration )
 
 #            print( "explore   ", wlist, self.ensemble, min(e0.unitRange), max( e0.unitRange) )
diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 3511acd..6f9e444 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -396,7 +396,7 @@ def printclass( cls, nitems=8, printId=False ) :
     for key in ld :
         print( "%-15.15s "%key, end="" )
         val = atr[key]
-        if isinstance( val, (list,numpy.ndarray) ) :
+        if isinstance( val, list ) or ( isinstance( val, numpy.ndarray ) and val.ndim > 0 ) :
             printlist( val, nitems=nitems )
         elif isinstance( val, str ) :
             print( shortName( val ) )
-- 
2.43.0


From 173b2dbf85446f78244458c12fad7345b3aaae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 050/111] fix: evolution of the parameters of dynamic models is
 zero-padded

---
 BayesicFitting/source/SampleList.py |  6 +++---
 BayesicFitting/source/Tools.py      | 17 +++++++++++++++++
 BayesicFitting/source/WalkerList.py |  4 ++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 3735af1..0289b18 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -428,9 +428,9 @@ class SampleList( list ):
         for sample in self :
             pe += [sample.parameters]
         if kpar is None :
-            return numpy.asarray( pe )
+            return Tools.padded( pe )
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return Tools.padded( pe )[:,kpar]
 
     def getParAndWgtEvolution( self ):
         """
@@ -446,7 +446,7 @@ class SampleList( list ):
         for sample in self :
             pe += [sample.parameters]
             we += [sample.logW]
-        return ( numpy.asarray( pe ), numpy.exp( numpy.asarray( we ) ) )
+        return ( Tools.padded( pe ), numpy.exp( numpy.asarray( we ) ) )
 
 
     def getNumberOfParametersEvolution( self ):
diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 6f9e444..4f7c8df 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -541,3 +541,20 @@ def average( xx, weights=None, circular=None ) :
         while averx > circular[1] : averx -= range
 
     return( averx, stdvx )
+
+def padded( lists ) :
+    """
+    Return a 2d array of the lists, zero-padded when they have different lengths.
+
+    Parameters
+    ----------
+    lists : list of array_like
+        1-d arrays
+    """
+    if len( { len( p ) for p in lists } ) <= 1 :
+        return numpy.asarray( lists )
+    res = numpy.zeros( ( len( lists ), max( [len( p ) for p in lists] ) ), dtype=float )
+    for r,p in zip( res, lists ) :
+        r[:len( p )] = p
+    return res
+
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 22ff2dd..c36319c 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -272,9 +272,9 @@ class WalkerList( list ):
         for walker in self :
             pe += [walker.parameters]
         if kpar is None :
-            return numpy.asarray( pe )
+            return Tools.padded( pe )
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return Tools.padded( pe )[:,kpar]
 
     def getScaleEvolution( self ):
         """ Return the evolution of the scale.  """
-- 
2.43.0


From aa75f6f0dec928686e0dd59a5b3cf2fa23180a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 051/111] fix: order engines replace the walker they move, not
 another one that has the same place in the unsorted list

---
 BayesicFitting/source/LoopEngine.py       | 2 +-
 BayesicFitting/source/MoveEngine.py       | 2 +-
 BayesicFitting/source/NearEngine.py       | 2 +-
 BayesicFitting/source/ReverseEngine.py    | 2 +-
 BayesicFitting/source/ShuffleEngine.py    | 2 +-
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 BayesicFitting/source/SwitchEngine.py     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..be4bff4 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -163,7 +163,7 @@ class LoopEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 
         else :
             self.reportFailed()
diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index e91661e..8e1504e 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -112,7 +112,7 @@ class MoveEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 ## check if better than Lbest in walkers[-1]
                 ## self.checkBest( problem, ptry, Ltry )
diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..d2f446b 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -155,7 +155,7 @@ class NearEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
             t = 1
 
         else :
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..e1b8c71 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -100,7 +100,7 @@ class ReverseEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..75dc2c0 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -114,7 +114,7 @@ class ShuffleEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..758a4c1 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -94,7 +94,7 @@ class StartOrderEngine( OrderEngine ):
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-        self.setWalker( walker.id, problem, par, logL )
+        self.setWalker( kw, problem, par, logL )
 
         return len( par )
 
diff --git a/BayesicFitting/source/SwitchEngine.py b/BayesicFitting/source/SwitchEngine.py
index 8aa85e4..c3d2a2f 100644
--- a/BayesicFitting/source/SwitchEngine.py
+++ b/BayesicFitting/source/SwitchEngine.py
@@ -115,7 +115,7 @@ class SwitchEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 #            param = walker.allpars
 
             return 2
-- 
2.43.0


From 39bbb90dd9b73321c26364350810e3dcab32c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 052/111] fix: StartOrderEngine uses its own random generator,
 so that a seed is reproducible

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 758a4c1..a4f7051 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From 9f5cf10bd2a506b3fe9f3a49d0d16a256619d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 053/111] fix: ShuffleEngine can be used in NestedSolver

---
 BayesicFitting/source/ShuffleEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index 75dc2c0..c42df50 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def executeOnce( self, kw, lowLhood ):
         """
         Execute the engine by diffusing the parameters.
 
-- 
2.43.0


From dbe33cab4fb71c8cfafe2290c3b5bdbbea11963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 054/111] fix: NearEngine takes distances between the selected
 nodes, also when they are tabulated or spherical

---
 BayesicFitting/source/NearEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index d2f446b..3210e8d 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -117,13 +117,13 @@ class NearEngine( OrderEngine ):
         n0 = ptry[0]
         nsel = [n0,ptry[1]]
         if self.nearest[n0] < 0 :                                   # not yet calculated
-            dmin = problem.distance( xd[nsel,:], [0,1] )[0]         # need only one distance
+            dmin = problem.distance( xd, nsel )[0]                  # need only one distance
 #            print( 0, fmt( nsel ), fmt( dmin ), fmt( dmin ) )
         
             kmin = 1
             for k in range( 2, np ) :                               # find nearest
                 nsel[1] = ptry[k]
-                d = problem.distance( xd[nsel,:], [0,1] )[0]
+                d = problem.distance( xd, nsel )[0]
 #                print( k, fmt( nsel ), fmt( d ), fmt( dmin ) )
                 if d < dmin :
                     dmin = d
-- 
2.43.0


From f0f346919c3b32fafd860de1847e7cc2833b5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 055/111] fix: SalesmanProblem accepts a user defined distance
 of the documented form

---
 BayesicFitting/source/SalesmanProblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index f52c624..8a37990 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -299,7 +299,9 @@ class SalesmanProblem( OrderProblem ):
         pars = numpy.arange( ndata, dtype=int )
         md = self.distance( self.xdata, pars ).min()
         for roll in range( 2, ndata ) :
-            md = self.distance( self.xdata, pars, roll=roll ).min( initial=md )
+            ## pairs of nodes, roll positions apart; select the distances inside the pairs
+            pairs = numpy.stack( ( pars, numpy.roll( pars, -roll ) ), axis=1 ).flatten()
+            md = self.distance( self.xdata, pairs )[::2].min( initial=md )
 
         return md
 
-- 
2.43.0


From d3da0cb0ae0c5c034a092fafc739f441a0c7d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 056/111] fix: SalesmanProblem warns about an unknown distance
 instead of raising an error

---
 BayesicFitting/source/SalesmanProblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index 8a37990..bb503bc 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -120,11 +120,12 @@ class SalesmanProblem( OrderProblem ):
                 self.disname = self.DISNAMES[4]
                 self.table = table
             else :
-                warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
+                warnings.warn( "Unknown distance %s. Using euclidic in stead" % str( distance ) )
                 self.distance = self.euclidic
         else :
-            warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
+            warnings.warn( "Unknown distance %s. Using euclidic in stead" % str( distance ) )
             self.distance = self.euclidic
+            self.disname = self.DISNAMES[2]
 
         mindis = self.minimumDistance()
         if mindis < 1e-10 :
-- 
2.43.0


From 14937653431fcafdf972acaac61518cba5f57c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 057/111] fix: LoopEngine uncrosses paths at a vertical
 connection, instead of making another crossing

---
 BayesicFitting/source/LoopEngine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index be4bff4..7247a6c 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -121,6 +121,8 @@ class LoopEngine( OrderEngine ):
         x2, y2 = tuple( problem.xdata[k2,dims] )
         if x1 == x2 :
             dims = [dims[1], dims[0]]           ## reverse dimensional order
+            x1, y1 = y1, x1                     ## for these points too
+            x2, y2 = y2, x2
             m1 = 0                              ## slope of point k1 to k2
         else :
             m1 = ( y2 - y1 ) / ( x2 - x1 )
-- 
2.43.0


From a7c60d45cb654f306099680950ba2578e3ab2d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 058/111] fix: engines keep the list of fitted parameters and
 the descent of the walker they move

---
 BayesicFitting/source/Engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 11ce21f..bf887e2 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -173,8 +173,12 @@ class Engine( object ):
             (new) fitIndex
         """
         if walker is None :
-            id = 0 if kw >= len( self.walkers ) else self.walkers[kw].id
-            wlkr = Walker( id, problem, allpars, fitIndex )
+            if kw >= len( self.walkers ) :
+                wlkr = Walker( 0, problem, allpars, fitIndex )
+            else :
+                old = self.walkers[kw]                  # keep its identity
+                fi = old.fitIndex if fitIndex is None else fitIndex
+                wlkr = Walker( old.id, problem, allpars, fi, parent=old.parent, start=old.start )
         else :
             wlkr = walker.copy()
             wlkr.allpars = allpars    # Tools.toArray( allpars, ndim=1, dtype=float )
-- 
2.43.0


From 1e73125d0c2745502fa205ab60bd19e7dbfbf804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 059/111] fix: LoopEngine finds the crossing of two connections
 at the right place

---
 BayesicFitting/source/LoopEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 7247a6c..701778f 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -142,7 +142,7 @@ class LoopEngine( OrderEngine ):
 
             else :
                 m3 = ( y4 - y3 ) / ( x4 - x3 )
-                xc = ( y3 - y1 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
+                xc = ( y1 - y3 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
                 if Tools.isBetween( x1, xc, x2 ) and Tools.isBetween( x3, xc, x4 ) :
                     break
 
-- 
2.43.0


From 67d6bbd0d32912e40d65f546944247168d840f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 060/111] fix: logFactorial of a list with one item and of a
 float

---
 BayesicFitting/source/LogFactorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LogFactorial.py b/BayesicFitting/source/LogFactorial.py
index 63f1176..2d33fdf 100644
--- a/BayesicFitting/source/LogFactorial.py
+++ b/BayesicFitting/source/LogFactorial.py
@@ -97,7 +97,8 @@ def logFactorial( k ):
              359.1342053695754544]
 
 
-    if Tools.length( k ) == 1 :
+    if numpy.ndim( k ) == 0 :
+        k = int( k )
         return ( logfact[k] if k < 100 else
             0.9189385332046727 + ( k + 0.5 ) * math.log( k ) - k + 1.0 / ( 12.0 * k ) )
 
-- 
2.43.0


From 1983272c00039b4632824aa75d8cf741d2f47256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 061/111] fix: StartEngine keeps the values of parameters that
 are not fitted in dynamic models

---
 BayesicFitting/source/StartEngine.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..ddffd9f 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -88,13 +88,9 @@ class StartEngine( Engine ):
         """
         walker = self.walkers[kw]
         problem = walker.problem
-        model = problem.model
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
@@ -102,12 +98,12 @@ class StartEngine( Engine ):
         ktry = 0
         while True :
 
-            if model.isDynamic() :
-                np0 = model.npars
+            if problem.model.isDynamic() :
+                model = problem.model
                 off = 0
 
                 ## find the model in the chain that is actually dynamic
-                while model is not None and not isinstance( model, Dynamic ) :
+                while not ( isinstance( model, Dynamic ) and model.isDynamic() ) :
                     off += model.npbase
                     model = model._next
 
@@ -117,13 +113,11 @@ class StartEngine( Engine ):
                 ## Grow the dynamic model a number of times according to growPrior
                 while ( model.ncomp < model.growPrior.unit2Domain( self.rng.rand() ) and
                         model.grow( offset=off, rng=self.rng ) ) :
-                    np1 = model.npars
-                    dnp = np1 - np0
+                    dnp = model.npbase - npbase
                     fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
+                    ## keep the values of the parameters that are not fitted
+                    allp = model.alterParameters( allp, npbase, dnp, off )
                     npbase = model.npbase
-                    np0 = np1
-
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
 
             uval = self.rng.rand( len( fitIndex ) )
 
-- 
2.43.0


From 25b7e5c6de003b8f7c416e20087e1d8af6e02fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 062/111] fix: a static repeating model in a chain with a
 dynamic model

---
 BayesicFitting/source/BirthEngine.py    |  2 +-
 BayesicFitting/source/DeathEngine.py    |  2 +-
 BayesicFitting/source/Dynamic.py        | 12 +++++++++++-
 BayesicFitting/source/RepeatingModel.py | 13 ++++++++-----
 BayesicFitting/source/StartEngine.py    |  2 +-
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/BirthEngine.py b/BayesicFitting/source/BirthEngine.py
index babd4e4..69eb39b 100644
--- a/BayesicFitting/source/BirthEngine.py
+++ b/BayesicFitting/source/BirthEngine.py
@@ -114,7 +114,7 @@ class BirthEngine( Engine ):
         model = problem.model
         model.parameters = allp[:model.npars]
 
-        while model is not None and not isinstance( model, Dynamic ) :
+        while not isinstance( model, Dynamic ) or model.isStatic() :
             off += model.npbase
             model = model._next
 
diff --git a/BayesicFitting/source/DeathEngine.py b/BayesicFitting/source/DeathEngine.py
index 940ecee..b5ea6ca 100644
--- a/BayesicFitting/source/DeathEngine.py
+++ b/BayesicFitting/source/DeathEngine.py
@@ -113,7 +113,7 @@ class DeathEngine( Engine ):
         ftry = walker.fitIndex
 
         off = 0
-        while model is not None and not isinstance( model, Dynamic ) :
+        while not isinstance( model, Dynamic ) or model.isStatic() :
             off += model.npbase
             model = model._next
 
diff --git a/BayesicFitting/source/Dynamic.py b/BayesicFitting/source/Dynamic.py
index 76ee319..67bbff2 100644
--- a/BayesicFitting/source/Dynamic.py
+++ b/BayesicFitting/source/Dynamic.py
@@ -62,7 +62,17 @@ class Dynamic( object ):
         setatt( self, "dynamic", dynamic )
 
     def isDynamic( self ) :
-        return self.dynamic
+        """
+        Return whether this model, or one that follows in the chain, is dynamic.
+        """
+        nxt = getattr( self, "_next", None )
+        return self.dynamic or ( nxt is not None and nxt.isDynamic() )
+
+    def isStatic( self ) :
+        """
+        Return True when this model itself has a fixed number of components.
+        """
+        return not self.__dict__.get( "dynamic", True )
 
     def setGrowPrior( self, growPrior=None, min=1, max=None, name="Comp" ) :
         """
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index a2fbb61..2b1db9e 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -151,7 +151,7 @@ class RepeatingModel( Model, Dynamic ):
             minComp = copy.minComp
             maxComp = copy.maxComp
             same = copy.same
-            if copy.isDynamic() :
+            if copy.isDyna :
                 growPrior = copy.growPrior.copy()
 
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
@@ -174,7 +174,7 @@ class RepeatingModel( Model, Dynamic ):
         self.setSame( same )
         self.deltaNpar = len( self.index )
 
-        if self.isDynamic() :
+        if self.isDyna :
             if growPrior is None :
                 if maxComp is None :
                     self.growPrior = ExponentialPrior( scale=2 )
@@ -227,7 +227,7 @@ class RepeatingModel( Model, Dynamic ):
         bool :  succes
 
         """
-        if not self.isDynamic() :
+        if not self.isDyna :
             return False
 
         if self.maxComp is not None and self.ncomp >= self.maxComp:
@@ -271,7 +271,7 @@ class RepeatingModel( Model, Dynamic ):
         bool : succes
 
         """
-        if ( not self.isDynamic() ) or self.ncomp <= self.minComp :
+        if ( not self.isDyna ) or self.ncomp <= self.minComp :
             return False
 
         location = self.npbase
@@ -336,7 +336,10 @@ class RepeatingModel( Model, Dynamic ):
             super( RepeatingModel, self ).__setattr__( name, value )
 
     def isDynamic( self ) :
-        return self.isDyna
+        return self.isDyna or ( self._next is not None and self._next.isDynamic() )
+
+    def isStatic( self ) :
+        return not self.isDyna
 
     #  *************************************************************************
     def baseResult( self, xdata, params ):
diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index ddffd9f..15fb702 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -103,7 +103,7 @@ class StartEngine( Engine ):
                 off = 0
 
                 ## find the model in the chain that is actually dynamic
-                while not ( isinstance( model, Dynamic ) and model.isDynamic() ) :
+                while not isinstance( model, Dynamic ) or model.isStatic() :
                     off += model.npbase
                     model = model._next
 
-- 
2.43.0


From ed91fa9bc12b50f145343642934cbc8ae604beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 063/111] fix: DecisionTreeModel in a chain, with unknown
 values, decoded, copied and varied to another kind of split

---
 BayesicFitting/source/DecisionTreeModel.py | 41 ++++++++++++++++------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..7f0bf6a 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -142,7 +142,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         Dynamic.__init__( self, dynamic=dynamic )
 
         if depth == 0 or code is not None :
-            nparams = 1
+            nparams = 1 if code is None else self.countCode( code )
             setatt( self, "left", None )
             setatt( self, "rite", None )
             setatt( self, "split", None )
@@ -187,13 +187,13 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 growPrior = ExponentialPrior( scale=2 )
             setatt( self, "growPrior", growPrior )
             setatt( self, "itypes", itypes )
-            setatt( self, "ncomp", ( 0x1 << depth ) - 1 )
+            setatt( self, "ncomp", nparams - 1 )
 #            setatt( self, "nsplit", 3 )
 #            self.setLimits( 0, 1 )
             setatt( self, "nsplit", self.NSPLITPRIOR )
             self.setLimits( lowLimits=0.0, highLimits=1.0 )
         else :
-            setatt( self, "growPrior", copy.growPrior )
+            setatt( self, "growPrior", copy.growPrior.copy() )
             setatt( self, "ncomp", copy.ncomp )
             setatt( self, "nsplit", copy.nsplit )
             setatt( self, "itypes", copy.itypes )
@@ -216,7 +216,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable,
+                                 dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
@@ -256,8 +257,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            setatt( self, "split", None )
 
     def isLeaf( self ) :
         """
@@ -287,8 +290,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         xd = Tools.getColumnData( xdata, self.dimension )[plist]        ## working data
 
         if self.split is not None :
-            mn = numpy.min( xd )
-            mx = numpy.max( xd )
+            mn = numpy.fmin.reduce( xd )            ## ignore NaNs
+            mx = numpy.fmax.reduce( xd )
 
             split = mn + ( mx - mn ) * self.split
             ### add NAN values to the smallest fraction
@@ -602,6 +605,14 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         return dtm, kbr
 
 
+    def countCode( self, code ) :
+        """
+        Return the number of leafs in the code generated by encode().
+        """
+        if code == 1 or code == 2 :
+            return code
+        return self.countCode( code[0] ) + self.countCode( code[1] )
+
     def findLeaf( self, kleaf ) :
         """
         Find a leaf in the tree, returning the leaf.
@@ -744,7 +755,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         bool :  succes
 
         """
-        if not self.isDynamic() :
+        if self.isStatic() :
             return False
 
         if self.maxComp is not None and self.ncomp >= self.maxComp:
@@ -773,7 +784,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -820,21 +831,24 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         leaf = self.findLeaf( location )
         parent = leaf.parent
-#       npp = parent.countLeaf()
 
         if parent is None :
             return False
 
+        ## the leafs at the other side of the branch are replaced too
+        if leaf is parent.rite :
+            location -= parent.countLeaf() - 2
 
         ## Erase the branch by putting the leafs to None
         setatt( parent, "left", None )
         setatt( parent, "rite", None )
         setatt( parent, "split", None )
+        setatt( parent, "mask", None )
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = cleaf - self.npbase
+        location = min( location - dnp, self.npbase )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -887,19 +901,24 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
                 if parent.mask is None :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
             else :
                 if parent.mask is None :                ## make new mask
                     mask = rng.randint( 0x1 << itype ) + 1
                 else :                                  ## change 1 bit
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
+                    if mask == 0 :                  ## at least one bit
+                        mask = rng.randint( 0x1 << itype ) + 1
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
 
         else :
             parent = self.findBranch( location )
-- 
2.43.0


From ed28bee7c4a0228965cdd0d705bbd9e0a384e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 064/111] fix: SplinesDynamicModel keeps parameters inside
 their priors when growing and shrinking, and its last knot fixed

---
 BayesicFitting/source/SplinesDynamicModel.py | 38 ++++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..ffb0731 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -247,8 +247,8 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
 #        print( "grow    ", nrknots, location, offset, k, kl, newkn )
 
-        mdlpar[kl-1] *= 0.7
-        value = mdlpar[kl-1]
+        value = self.insidePrior( kl - 1, 0.7 * mdlpar[kl-1] )
+        mdlpar[kl-1] = value
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset, value=value )
 
         setatt( self._head, "parameters", mdlpar )
@@ -298,18 +298,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
-
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
-
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            print( "New shrink value out of limit" )
-            print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
-            print( "Pars  ", fmt( mdlpar, max=None ) )
-            print( "Old   ", kl, fmt( mdlpar[kl:kl+2] ), "  New  ", fmt( value ) )
-
-            raise ValueError( "Out of limits Prior" )
-            return False
+        inval = self.insidePrior( kl, value )
+        if inval != value :
+            value = ( inval + mdlpar[kl] + mdlpar[kl+1] ) / 3
+            value = self.insidePrior( kl, value )
 
 #        print( "SD  p1 ", npars, nrknots, k, location, kl )
 
@@ -333,10 +325,26 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
         return True
 
+    def insidePrior( self, kpar, value ) :
+        """
+        Return value, moved to the nearest limit when it is outside the prior.
+
+        Parameters
+        ----------
+        kpar : int
+            index of the parameter in the chain
+        value : float
+            of the parameter
+        """
+        try :
+            return self._head.getPrior( kpar ).stayInLimits( value )
+        except IndexError :             ## no priors defined
+            return value
+
     def vary( self, rng=None, location=None ) :
 
         nrknots = len( self.knots )
-        if nrknots <= 2 or location == 0 or location == nrknots :
+        if nrknots <= 2 or location == 0 or location == nrknots - 1 :
             return False
 
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
-- 
2.43.0


From 01a1a5398a7a857330d59ed67245f777533be1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 065/111] fix: a modifiable model in a chain is varied and
 copied too

---
 BayesicFitting/source/Model.py           | 11 ++++++++
 BayesicFitting/source/Modifiable.py      |  6 ++++-
 BayesicFitting/source/StructureEngine.py | 34 +++++++++++++++++++-----
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 823bdca..77bf2b6 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1024,6 +1024,17 @@ class Model( FixedModel ):
 
         return False
 
+    def isModifiable( self ) :
+        """
+        Return whether the model, or one in its chain, is modifiable.
+        """
+        if super( Model, self ).isModifiable() :
+            return True
+        elif self._next is not None :
+            return self._next.isModifiable()
+
+        return False
+
     #  *****PRIOR***************************************************************
     def hasPriors( self, isBound=True ) :
         """
diff --git a/BayesicFitting/source/Modifiable.py b/BayesicFitting/source/Modifiable.py
index a14cbff..ab3e8f5 100644
--- a/BayesicFitting/source/Modifiable.py
+++ b/BayesicFitting/source/Modifiable.py
@@ -46,7 +46,11 @@ class Modifiable( object ):
         setatt( self, "modifiable", modifiable )
 
     def isModifiable( self ) :
-        return self.modifiable
+        """
+        Return whether this model, or one that follows in the chain, is modifiable.
+        """
+        nxt = getattr( self, "_next", None )
+        return self.modifiable or ( nxt is not None and nxt.isModifiable() )
 
 
     def vary( self, location=None, rng=None, **kwargs ) :
diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..97065bc 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,11 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model, off = self.findModifiable( self.walkers[kw].problem.model )
+        if model is None or model.ncomp < 1 :
+            return t
+
+        perm = self.rng.permutation( max( 1, model.ncomp - 2 ) )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
@@ -110,6 +114,28 @@ class StructureEngine( Engine ):
 
         return t
 
+    def findModifiable( self, model ) :
+        """
+        Find the modifiable model in the chain.
+
+        Parameters
+        ----------
+        model : Model
+            head of the chain
+
+        Returns
+        -------
+        tuple of (modifiable model or None, number of parameters before it)
+
+        """
+        off = 0
+        while model is not None and not ( isinstance( model, Modifiable ) and
+                                          model.modifiable ) :
+            off += model.npbase
+            model = model._next
+
+        return model, off
+
     def executeOnce( self, wlkrid, lowLhood, update, location=None ) :
         """
         One execution call.
@@ -125,11 +151,7 @@ class StructureEngine( Engine ):
             print( "SEN0  ", walker.id, walker.parent, len( ptry ), len( ftry ), walker.logL )
             print( "      ", fmt( problem.model.knots, max=None ) )
 
-        off = 0
-        model = problem.model
-        while model is not None and not isinstance( model, Modifiable ) :
-            off += model.npbase
-            model = model._next
+        model, off = self.findModifiable( problem.model )
 
         if self.verbose > 4 :
             nc = model.ncomp
-- 
2.43.0


From dd1dfd59cdc8de5387e89b19bcf7d8b65921bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 066/111] fix: ChordEngine keeps a walker at the edge of its
 prior inside

---
 BayesicFitting/source/ChordEngine.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index d52dcb0..f6937f1 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -177,15 +177,17 @@ class ChordEngine( Engine ):
             ## append travel times wrt usav (==0) to all edges umin and umax
             ## tt contains entrance times as negative values
             ## and exit times as positive values.
-            tt = numpy.append( ( umin - usav ) / vel, ( umax - usav ) / vel )
+            tmin = ( umin - usav ) / vel
+            tmax = ( umax - usav ) / vel
+            tt = numpy.append( tmin, tmax )
             if self.verbose > 4 :
                 print( "uvel  ", fma( vel ) )
                 print( "ttb   ", fma( tt[:10] ) )
                 print( "tte   ", fma( tt[10:] ) )
 
             ## find smallest entrance and exit times
-            t1 = numpy.min( numpy.where( tt > 0, tt, +math.inf ) )
-            t0 = numpy.max( numpy.where( tt < 0, tt, -math.inf ) )
+            t1 = numpy.min( numpy.maximum( tmin, tmax ) )
+            t0 = numpy.max( numpy.minimum( tmin, tmax ) )
 
             ## same now for the values at the edges of the unit box (0,1)
             if self.debug :
@@ -210,8 +212,8 @@ class ChordEngine( Engine ):
             while True :
                 kk += 1
 
-                # assert t0 < 0 < t1, "%f < %f < %f"%(t0,0,t1)
-                if not ( t0 < 0 < t1 and math.isfinite( t0 ) and math.isfinite( t1 ) ) : 
+                # usav might be at one of the edges
+                if not ( t0 <= 0 <= t1 and t0 < t1 and math.isfinite( t0 ) and math.isfinite( t1 ) ) : 
                     break
 
                 ## dt is timestep wrt. usav (at 0)
-- 
2.43.0


From 0f4c9950508291ea9852fb506dd4eeaf42e6aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 067/111] fix: SplinesDynamicModel grows and shrinks to
 parameters strictly inside their priors

---
 BayesicFitting/source/SplinesDynamicModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index ffb0731..a70501c 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -247,7 +247,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
 #        print( "grow    ", nrknots, location, offset, k, kl, newkn )
 
-        value = self.insidePrior( kl - 1, 0.7 * mdlpar[kl-1] )
+        value = 0.7 * mdlpar[kl-1]
+        inval = self.insidePrior( kl - 1, value )
+        if inval != value :
+            value = 0.5 * ( inval + mdlpar[kl-1] )
         mdlpar[kl-1] = value
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset, value=value )
 
-- 
2.43.0


From 63e6570cd8453b7652ebf16f74cbe7c61edce87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 068/111] fix: HarmonicDynamicModel of order 0 can be copied

---
 BayesicFitting/source/HarmonicDynamicModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HarmonicDynamicModel.py b/BayesicFitting/source/HarmonicDynamicModel.py
index 6b4b068..4857b01 100644
--- a/BayesicFitting/source/HarmonicDynamicModel.py
+++ b/BayesicFitting/source/HarmonicDynamicModel.py
@@ -141,7 +141,8 @@ class HarmonicDynamicModel( HarmonicModel, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return HarmonicDynamicModel( self.order, period=self.period, copy=self )
+        return HarmonicDynamicModel( self.order, minOrder=self.minOrder,
+                                     period=self.period, copy=self )
 
     def isDynamic( self ) :
         return True
-- 
2.43.0


From bea700e9afee27b6d2e5173ed0fe75b4dd855576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 069/111] fix: a repeating model without components and a
 decision tree of one leaf in a product

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 BayesicFitting/source/RepeatingModel.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 7f0bf6a..5d37418 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -326,7 +326,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            return res + params[0]
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 2b1db9e..777c19c 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -357,7 +357,7 @@ class RepeatingModel( Model, Dynamic ):
 #        result = numpy.zeros( Tools.length( xdata ), dtype=float )
         result = 0.0
         if self.ncomp == 0 :
-            return result
+            return numpy.zeros( Tools.length( xdata ), dtype=float )
 
         ke = self.model.npchain
         pars = params[:ke].copy()
-- 
2.43.0


From b7ea39d1769b050850f9b0a50f255ee05ac4c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 070/111] fix: DecisionTreeModel varies a mask to one that fits
 the new dimension

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 5d37418..06da98b 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -910,8 +910,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 setatt( parent, "mask", mask )
                 setatt( parent, "split", None )
             else :
-                if parent.mask is None :                ## make new mask
-                    mask = rng.randint( 0x1 << itype ) + 1
+                if parent.mask is None or parent.mask >= ( 0x2 << itype ) :
+                    mask = rng.randint( 0x1 << itype ) + 1      ## make new mask
                 else :                                  ## change 1 bit
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
-- 
2.43.0


From f24cccb293633566670de5349165aef09cce8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 071/111] fix: a sample does not share its parameters with the
 walker it comes from

---
 BayesicFitting/source/Walker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9e123bb..08bc8d5 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -126,14 +126,15 @@ class Walker( object ):
         np = self.problem.npars
         nm = self.problem.model.npars if self.problem.model else np
 
-        param = self.allpars[:nm]
+        allpars = self.allpars.copy()           # the sample does not share with the walker
+        param = allpars[:nm]
         sample = Sample( self.id, self.parent, self.start, self.problem.model,
                          parameters=param, fitIndex=self.fitIndex )
 
-        if len( self.allpars ) > np :
-            sample.hyper = self.allpars[np:]
+        if len( allpars ) > np :
+            sample.hyper = allpars[np:]
         if np > nm :
-            sample.nuisance = self.allpars[nm:np]
+            sample.nuisance = allpars[nm:np]
 
         sample.logL = self.logL + self.logPrior
         sample.logW = logW
-- 
2.43.0


From 29ab216a3ce43303e83222ea67f98a83cc76550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 072/111] fix: models evaluated at integer input are not
 truncated to integers

---
 BayesicFitting/source/BasicSplinesModel.py    |  6 ++---
 .../source/ChebyshevPolynomialModel.py        |  4 ++--
 BayesicFitting/source/ConstantModel.py        |  2 +-
 BayesicFitting/source/FixedModel.py           |  8 +++----
 BayesicFitting/source/HarmonicModel.py        |  2 +-
 BayesicFitting/source/Model.py                |  4 ++--
 BayesicFitting/source/NeuralNetUtilities.py   |  4 ++--
 BayesicFitting/source/PadeModel.py            | 24 +++++++++----------
 BayesicFitting/source/PolySurfaceModel.py     |  2 +-
 BayesicFitting/source/PolynomialModel.py      |  2 +-
 10 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index 9c4065b..4a875f8 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -466,7 +466,7 @@ class BasicSplinesModel( SplinesModel ):
         x2k = self.makeKnotIndices( xdata )
 
         pa = numpy.inner( self.basis, params )
-        res = numpy.zeros_like( xdata )
+        res = numpy.zeros_like( xdata, dtype=float )
         for k, kn in enumerate( self.knots[:-1] ) :
             q = numpy.where( x2k == k )
             xc = xdata[q] - kn
@@ -544,7 +544,7 @@ class BasicSplinesModel( SplinesModel ):
         poly : PolynomialModel
             model to calculate the splines
         """
-        blob = numpy.zeros_like( xdata )
+        blob = numpy.zeros_like( xdata, dtype=float )
 
         kn = self.knots[:-1]
         for k, kn in enumerate( self.knots[:-1] ) :
@@ -567,7 +567,7 @@ class BasicSplinesModel( SplinesModel ):
             parameters to the model
 
         """
-        dfdx = numpy.zeros_like( xdata )
+        dfdx = numpy.zeros_like( xdata, dtype=float )
         if self.order == 0 :
             return dfdx
 
diff --git a/BayesicFitting/source/ChebyshevPolynomialModel.py b/BayesicFitting/source/ChebyshevPolynomialModel.py
index b11a50a..1fada0a 100644
--- a/BayesicFitting/source/ChebyshevPolynomialModel.py
+++ b/BayesicFitting/source/ChebyshevPolynomialModel.py
@@ -167,11 +167,11 @@ class ChebyshevPolynomialModel( LinearModel ):
 
         """
         if self.npmax <= 1 :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         np = self.npmax - 1
 
-        um = numpy.ones_like( xdata )
+        um = numpy.ones_like( xdata, dtype=float )
         der = um * params[1]
         if np >= 2:
             uu = 2 * xdata
diff --git a/BayesicFitting/source/ConstantModel.py b/BayesicFitting/source/ConstantModel.py
index ab6d7a5..31a0354 100644
--- a/BayesicFitting/source/ConstantModel.py
+++ b/BayesicFitting/source/ConstantModel.py
@@ -197,7 +197,7 @@ class ConstantModel( Model ):
 
         """
         if self.fixedModel is None :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         return self.fixedModel.derivative( xdata, self.fixedModel.parameters )
 
diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 70f164d..2a5622b 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -463,9 +463,9 @@ class FixedModel( BaseModel ):
 
         ## More dimensional input; one output
         if self.ndout == 1 :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             for i in range( self.ndim ) :
-                x = xdata.copy()
+                x = numpy.array( xdata, dtype=float )
                 x[:,i] += dx
                 r1 = result( self, x, param )
                 x[:,i] -= 2 * dx
@@ -476,9 +476,9 @@ class FixedModel( BaseModel ):
         ## more dimensional input and output
         dfdx = []
         for k in range( self.ndout ) :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             for i in range( self.ndim ) :
-                x = xdata.copy()
+                x = numpy.array( xdata, dtype=float )
                 x[:,i] += dx
                 r1 = result( self, x, param )
                 x[:,i] -= 2 * dx
diff --git a/BayesicFitting/source/HarmonicModel.py b/BayesicFitting/source/HarmonicModel.py
index 535f2e4..f667a09 100644
--- a/BayesicFitting/source/HarmonicModel.py
+++ b/BayesicFitting/source/HarmonicModel.py
@@ -166,7 +166,7 @@ class HarmonicModel( LinearModel ):
             parameters of the model.
 
         """
-        df = numpy.zeros_like( xdata )
+        df = numpy.zeros_like( xdata, dtype=float )
         tp = 2 * math.pi / self.period
         x = tp * xdata
         j = 0
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 77bf2b6..50bb8cb 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1721,10 +1721,10 @@ class Model( FixedModel ):
 
         ## More dimensions in xdata
         if self.lastndout == 1 :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             assignDF = self.assignDF1
         else :
-            df = [ numpy.zeros_like( xdata ) for k in range( self.lastndout ) ]
+            df = [ numpy.zeros_like( xdata, dtype=float ) for k in range( self.lastndout ) ]
             assignDF = self.assignDF2
 
         for i in range( self.ndim ) :
diff --git a/BayesicFitting/source/NeuralNetUtilities.py b/BayesicFitting/source/NeuralNetUtilities.py
index 74038f6..9be233b 100644
--- a/BayesicFitting/source/NeuralNetUtilities.py
+++ b/BayesicFitting/source/NeuralNetUtilities.py
@@ -203,7 +203,7 @@ class Identity( BaseNeuralNetworkUtilities ) :
         return xdata
 
     def derivative( self, xdata, params ) :
-        return numpy.ones_like( xdata )
+        return numpy.ones_like( xdata, dtype=float )
 
     def pipe( self, dfdr, drdp ) :
         # dfdr is all 1's
@@ -265,7 +265,7 @@ class Heaviside( BaseNeuralNetworkUtilities ) :
         return numpy.where( xdata >=0, 1.0, 0.0 )
 
     def derivative( self, xdata, params ) :
-        return numpy.zeros_like( xdata )
+        return numpy.zeros_like( xdata, dtype=float )
 
     def pipe( self, dfdr, drdp ) :
         return numpy.zeros_like( drdp )
diff --git a/BayesicFitting/source/PadeModel.py b/BayesicFitting/source/PadeModel.py
index e7b7cfc..ad8bfff 100644
--- a/BayesicFitting/source/PadeModel.py
+++ b/BayesicFitting/source/PadeModel.py
@@ -156,16 +156,16 @@ class PadeModel( NonLinearModel ):
             parameters for the model.
 
         """
-        nm = numpy.zeros_like( xdata )
-        xx = numpy.ones_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
+        xx = numpy.ones_like( xdata, dtype=float )
         k = 0
         while k <= self.num :
             nm += params[k] * xx
             xx *= xdata
             k += 1
 
-        dn = numpy.zeros_like( xdata )
-        xx = numpy.ones_like( xdata )
+        dn = numpy.zeros_like( xdata, dtype=float )
+        xx = numpy.ones_like( xdata, dtype=float )
         while k < self.npmax :
             dn += params[k] * xx
             xx *= xdata
@@ -191,7 +191,7 @@ class PadeModel( NonLinearModel ):
         partial = numpy.zeros( ( nxdata, self.npmax ), dtype=float )
 
         xx = numpy.ones( nxdata )
-        nm = numpy.zeros_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
         k = 0
         while k <= self.num:
             partial[:,k] = xx
@@ -200,7 +200,7 @@ class PadeModel( NonLinearModel ):
             k += 1
 
         xx = numpy.ones( nxdata )
-        dn = numpy.zeros_like( xdata )
+        dn = numpy.zeros_like( xdata, dtype=float )
         while k < self.npmax :
             partial[:,k] = -xx * nm
             dn += params[k] * xx
@@ -232,12 +232,12 @@ class PadeModel( NonLinearModel ):
             parameters for the model.
 
         """
-        nm = numpy.zeros_like( xdata )
-        dn = numpy.zeros_like( xdata )
-        dnm = numpy.zeros_like( xdata )
-        ddn = numpy.zeros_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
+        dn = numpy.zeros_like( xdata, dtype=float )
+        dnm = numpy.zeros_like( xdata, dtype=float )
+        ddn = numpy.zeros_like( xdata, dtype=float )
 
-        xx = numpy.ones_like( xdata )
+        xx = numpy.ones_like( xdata, dtype=float )
         nm += params[0] * xx
         k = 1
         while k <= self.num:
@@ -246,7 +246,7 @@ class PadeModel( NonLinearModel ):
             nm += params[k] * xx
             k += 1
 
-        xx = numpy.ones_like( xdata )
+        xx = numpy.ones_like( xdata, dtype=float )
         dn += params[k] * xx
         k += 1
         while k < self.npmax :
diff --git a/BayesicFitting/source/PolySurfaceModel.py b/BayesicFitting/source/PolySurfaceModel.py
index 730a41a..c4ea41a 100644
--- a/BayesicFitting/source/PolySurfaceModel.py
+++ b/BayesicFitting/source/PolySurfaceModel.py
@@ -184,7 +184,7 @@ class PolySurfaceModel( LinearModel ):
 
         """
         if self.npmax <= 1 :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         np = self.npmax
 
diff --git a/BayesicFitting/source/PolynomialModel.py b/BayesicFitting/source/PolynomialModel.py
index 0776b81..096812d 100644
--- a/BayesicFitting/source/PolynomialModel.py
+++ b/BayesicFitting/source/PolynomialModel.py
@@ -146,7 +146,7 @@ class PolynomialModel( LinearModel ):
 
         """
         if self.npmax <= 1 :
-            return numpy.zeros_like( xdata )
+            return numpy.zeros_like( xdata, dtype=float )
 
         np = self.npmax
         p = params * numpy.arange( np )
-- 
2.43.0


From 20a606e1bc58878f1687de467e012945d116827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 073/111] fix: kernels evaluated at integer input are not
 truncated to integers

---
 BayesicFitting/source/kernels/Tophat.py  | 22 +++++++++++-----------
 BayesicFitting/source/kernels/Uniform.py |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0dc2515..8004bb5 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -100,7 +100,7 @@ class Conv0( object ) :
         return numpy.where( ax < 0.5, 1.0, numpy.where( ax == 0.5, 0.5, 0.0 ) )
 
     def partial( self, x ):
-        return numpy.zeros_like( x )
+        return numpy.zeros_like( x, dtype=float )
 
 class Conv1( object ) :
     def result( self, x ) :
@@ -117,7 +117,7 @@ class Conv2( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 1.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -135,7 +135,7 @@ class Conv2( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 1.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -154,7 +154,7 @@ class Conv3( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -173,7 +173,7 @@ class Conv3( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -193,7 +193,7 @@ class Conv4( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -214,7 +214,7 @@ class Conv4( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -236,7 +236,7 @@ class Conv5( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -258,7 +258,7 @@ class Conv5( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.0 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -281,7 +281,7 @@ class Conv6( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
@@ -310,7 +310,7 @@ class Conv6( object ) :
         x = numpy.array( x, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.5 )[0]
-        res = numpy.zeros_like( x )
+        res = numpy.zeros_like( x, dtype=float )
         if len( q ) == 0 :
             return res
 
diff --git a/BayesicFitting/source/kernels/Uniform.py b/BayesicFitting/source/kernels/Uniform.py
index c018628..81576a3 100644
--- a/BayesicFitting/source/kernels/Uniform.py
+++ b/BayesicFitting/source/kernels/Uniform.py
@@ -56,7 +56,7 @@ class Uniform( Kernel ):
         return self.result( xsq )                   #  the same
 
     def partial( self, x ):
-        return numpy.zeros_like( x )
+        return numpy.zeros_like( x, dtype=float )
 
     def isBound( self ):
         return True
-- 
2.43.0


From 462ef39afd80d663880674911bb983f100859ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 074/111] fix: a hyperparameter keeps the limits of the prior
 it is given

---
 BayesicFitting/source/HyperParameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index b61de93..e2103cc 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -84,7 +84,8 @@ class HyperParameter( object ):
         self.stdev = None
         self.prior = prior
         if prior is not None :
-            self.prior.setLimits( limits )
+            if limits is not None :
+                self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
-- 
2.43.0


From a6676d69c12040c8d8de445e81501635ca0d8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 075/111] fix: OrthonormalBasis accepts a list as first vector

---
 BayesicFitting/source/OrthonormalBasis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/OrthonormalBasis.py b/BayesicFitting/source/OrthonormalBasis.py
index 9f54b94..6688261 100644
--- a/BayesicFitting/source/OrthonormalBasis.py
+++ b/BayesicFitting/source/OrthonormalBasis.py
@@ -58,6 +58,7 @@ class OrthonormalBasis( object ):
         reset : bool
             start a new basis.
         """
+        vec = numpy.asarray( vec, dtype=float )
         nb = 0 if reset or not hasattr( self, "basis" ) else self.basis.shape[0]
         if nb >= len( vec ) :
             nb = 0
-- 
2.43.0


From 41e6770892e93cba21915050fc1f514c9ad63f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 076/111] fix: formatter knows floats and integers of all sizes

---
 BayesicFitting/source/Formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Formatter.py b/BayesicFitting/source/Formatter.py
index e947c02..abf4e13 100644
--- a/BayesicFitting/source/Formatter.py
+++ b/BayesicFitting/source/Formatter.py
@@ -133,7 +133,10 @@ def formatter( array, format=None, indent=None, linelength=None, max=-1, tail=0
         array = numpy.asarray( array )
 
     if format is None :
-        format = fmt[str(array.dtype)]
+        dtype = str( array.dtype )
+        if dtype not in fmt :           # other sizes of the same kind
+            dtype = { "f" : "float64", "i" : "int64", "u" : "uint8" }.get( array.dtype.kind, dtype )
+        format = fmt[dtype]
 
     fmtlen = len( format % 1 )
 
-- 
2.43.0


From 5b79d30592cf65a6ff91f58694ccebd3afe40e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 077/111] fix: partials and derivatives of logistic and softmax
 functions do not overflow far away from the centre

---
 BayesicFitting/source/LogisticModel.py      | 8 ++++----
 BayesicFitting/source/NeuralNetUtilities.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/LogisticModel.py b/BayesicFitting/source/LogisticModel.py
index 1e6314e..5bb87bd 100644
--- a/BayesicFitting/source/LogisticModel.py
+++ b/BayesicFitting/source/LogisticModel.py
@@ -131,9 +131,9 @@ class LogisticModel( NonLinearModel ):
         a = params[0]
         s = params[2]
         x = ( params[1] - xdata )
-        e = numpy.exp( x / s )
-        f = 1 / ( 1 + e )
-        f2 = f * f
+        f = 1 / ( 1 + numpy.exp( x / s ) )
+        e = numpy.exp( - numpy.abs( x / s ) )       # avoid overflow: f2 * e is even in x
+        f2 = 1 / numpy.square( 1 + e )
 
         parts = { 0 : ( lambda: f ),
                   1 : ( lambda: -a / s * f2 * e ),
@@ -160,7 +160,7 @@ class LogisticModel( NonLinearModel ):
 
         """
         x = ( params[1] - xdata ) / params[2]
-        e = numpy.exp( x )
+        e = numpy.exp( - numpy.abs( x ) )           # avoid overflow: it is even in x
 
         return ( params[0] / params[2] ) * e / numpy.square( 1 + e )
 
diff --git a/BayesicFitting/source/NeuralNetUtilities.py b/BayesicFitting/source/NeuralNetUtilities.py
index 9be233b..24f1a29 100644
--- a/BayesicFitting/source/NeuralNetUtilities.py
+++ b/BayesicFitting/source/NeuralNetUtilities.py
@@ -244,7 +244,7 @@ class Logistic( BaseNeuralNetworkUtilities ) :
         return 1.0 / ( 1.0 + numpy.exp( -xdata ) )
 
     def derivative( self, xdata, params ) :
-        e = numpy.exp( xdata )
+        e = numpy.exp( - numpy.abs( xdata ) )       # avoid overflow: it is even in x
         return e / numpy.square( 1 + e )
 
     def pipe( self, dfdr, drdp ) :
@@ -284,12 +284,12 @@ class Softmax( BaseNeuralNetworkUtilities ) :
         self.ndout = ndout
 
     def result( self, xdata, params ) :
-        res = numpy.exp( xdata )
+        res = numpy.exp( xdata - numpy.max( xdata, axis=1, keepdims=True ) )
         sum = numpy.sum( res, axis=1 )
         return ( res.T / sum ).T
 
     def derivative( self, xdata, params ) :
-        f = numpy.exp( xdata )
+        f = numpy.exp( xdata - numpy.max( xdata, axis=1, keepdims=True ) )
         ndata = xdata.shape[0]
 
         norm = numpy.sum( f, axis=1 )
-- 
2.43.0


From 7602eab1b7c495a5a79cb161c1e715aad410ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 078/111] fix: ReverseEngine does not report a move when it did
 not make one

---
 BayesicFitting/source/ReverseEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index e1b8c71..e58092b 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
-- 
2.43.0


From 1a37443d0f93d58b4361d79c91c3854e8dfcac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 079/111] fix: partials of CombiModel when a parameter has both
 additive and multiplicative relations

---
 BayesicFitting/source/CombiModel.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 96ab354..3da7922 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -315,19 +315,10 @@ class CombiModel( BracketModel ):
         """
         exppar = self.expandParameters( params )
         fulldp = super( CombiModel, self ).basePartial( xdata, exppar )
-        partial = fulldp[:,self.select]
-        kk = 0
-        for i,k in enumerate( self.addindex ) :
-            if i % self.nrepeat == 0 :
-                kk = k
-            else :
-                partial[:,kk] += fulldp[:,k]
-        for i,k in enumerate( self.mulindex ) :
-            if i % self.nrepeat == 0 :
-                kk = k
-                partial[:,kk] *= self.mulvalue[i]
-            else :
-                partial[:,kk] += fulldp[:,k] * self.mulvalue[i]
+        fulldp[:,self.mulindex] *= self.mulvalue
+        partial = numpy.zeros( (len( fulldp ), len( self.select )), dtype=float )
+        for i,k in enumerate( self.expandindex ) :
+            partial[:,k] += fulldp[:,i]
         return partial
 
     def baseDerivative( self, xdata, params ) :
-- 
2.43.0


From f25f9a86d8c9279b2ffa55752af30464fe8cd2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 080/111] fix: AnnealingAmoeba never ends where the function is
 flat or undefined; limits for one variable

---
 BayesicFitting/source/AnnealingAmoeba.py | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index e5a6771..db8be84 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -197,8 +197,8 @@ class AnnealingAmoeba( object ):
             self.lolimits = None
             self.hilimits = None
         else :
-            self.lolimits = limits[0] if Tools.length( limits[0] ) > 1 else [limits[0]]*nfit
-            self.hilimits = limits[1] if Tools.length( limits[1] ) > 1 else [limits[1]]*nfit
+            self.lolimits = numpy.broadcast_to( limits[0], nfit )
+            self.hilimits = numpy.broadcast_to( limits[1], nfit )
         self.maxiter = maxiter
         if abstol is None and reltol is None :
             raise ValueError( "Both reltol and abstol are None." )
@@ -216,6 +216,7 @@ class AnnealingAmoeba( object ):
         # counters
         self.iter = 0
         self.ncalls = 0
+        self.inflations = 0                         # iterations that only inflated the initial simplex
 
         # initialize the simplex
         self.makeSimplex( xini, size )
@@ -333,6 +334,13 @@ class AnnealingAmoeba( object ):
                 print( simplex[:,i] )
                 raise ValueError( "Simplex is degenerate at index %d"%i )
 
+    def evaluate( self, x ) :
+        """
+        Return the function value at x. Undefined (NaN) values are never the lowest: return inf.
+        """
+        y = self.func( x )
+        return math.inf if numpy.isnan( y ) else y
+
     def setValues( self ):
         """
         Calculate the function values a simplex's corners
@@ -340,10 +348,11 @@ class AnnealingAmoeba( object ):
         """
         for i in range( self.simplex.shape[0] ):
             corner = self.simplex[i,:]
-            cost = self.func( corner )
+            cost = self.evaluate( corner )
             if not numpy.isfinite( cost ) :
-                corner += 0.01 * numpy.sum( self.simplex, 0 )
-                cost = self.func( corner )
+                trycor = corner + 0.01 * numpy.sum( self.simplex, 0 )
+                corner[:] = self.stayInLimits( corner, trycor )
+                cost = self.evaluate( corner )
 
             self.values[i] = cost
             if i == 0 or self.values[i] < self.fopt:
@@ -467,10 +476,12 @@ class AnnealingAmoeba( object ):
                     if self.iter < maxiter:
                         continue
 
-                if self.iter == 0 :             ## it does not start. Inflate the simplex
+                if self.iter == self.inflations :   ## it does not start. Inflate the simplex
                     move = "expand"
                     ylo = self.inflateSimplex( ilo, DELTA )
                     trans += nfit
+                    self.iter += 1
+                    self.inflations += 1
                     continue
                 break
 
@@ -561,7 +572,7 @@ class AnnealingAmoeba( object ):
         ylo = self.values[ilo]
         for i in milo :
             p = self.simplex[i,:]
-            self.values[i] = self.func( p )
+            self.values[i] = self.evaluate( p )
             if self.values[i] < ylo:
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
@@ -593,7 +604,7 @@ class AnnealingAmoeba( object ):
         inpar = self.simplex[ihi,:]
         partry = self.stayInLimits( inpar, partry )
 
-        ytry = self.func( partry )
+        ytry = self.evaluate( partry )
 
         if ytry < self.fopt:
             self.fopt = ytry
-- 
2.43.0


From 8df006d25bff8e11c8d9a25246dec0ea17c7b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 081/111] fix: sign in the iteration for Kepler's equation

---
 BayesicFitting/source/Kepplers2ndLaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Kepplers2ndLaw.py b/BayesicFitting/source/Kepplers2ndLaw.py
index 7670fee..f260487 100644
--- a/BayesicFitting/source/Kepplers2ndLaw.py
+++ b/BayesicFitting/source/Kepplers2ndLaw.py
@@ -142,7 +142,7 @@ class Kepplers2ndLaw( object ):
         ## calculate the eccentric anomaly E
         while iter < self.MAXITER :
             sinE = numpy.sin( Ep )
-            E = M - eccen * sinE
+            E = M + eccen * sinE
             iter += 1
             if all( numpy.abs( E - Ep ) < 1e-8 ) : break
             Ep = E
-- 
2.43.0


From 7c3f3bb70cf54f91c3ed980f04c587f684c28c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 082/111] fix: parameters used by semimajoraxis and getMsini,
 and units of orbital parameters

---
 BayesicFitting/source/RadialVelocityModel.py | 14 +++++++++-----
 BayesicFitting/source/StellarOrbitModel.py   |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index a715168..87ee58e 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -102,7 +102,7 @@ class RadialVelocityModel( NonLinearModel ) :
         """
         if name == "semimajoraxis" :
             p = self.parameters
-            return p[0] * p[1] * math.sqrt ( 1 - p[2] * p[2] ) / self.TWOPI
+            return p[1] * p[2] * math.sqrt ( 1 - p[0] * p[0] ) / self.TWOPI
         else :
             return super( RadialVelocityModel, self ).__getattr__( name )
 
@@ -116,8 +116,8 @@ class RadialVelocityModel( NonLinearModel ) :
             mass of the host star in solar masses.
         """
         p = self.parameters
-        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[0] *
-                 math.pow( p[1], 1.0 / 3.0 ) * math.sqrt( 1 - p[2] * p[2] ) )
+        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[1] *
+                 math.pow( p[2], 1.0 / 3.0 ) * math.sqrt( 1 - p[0] * p[0] ) )
 
     def baseResult( self, xdata, params ):
         """
@@ -244,6 +244,10 @@ class RadialVelocityModel( NonLinearModel ) :
 
         """
         if k == 0:
-            return units.Unit( units.si.rad ) / self.xUnit
-        return self.yUnit
+            return units.Unit( )
+        elif k == 1 :
+            return self.yUnit
+        elif k == 2 :
+            return self.xUnit
+        return units.Unit( units.si.rad )
 
diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index 390126c..a148152 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -415,7 +415,7 @@ class StellarOrbitModel( NonLinearModel ):
         elif k == 1 :
             return self.yUnit
         elif k == 2 :
-            return 1.0 / self.xUnit
+            return self.xUnit
         return units.Unit( units.si.rad )
 
 
-- 
2.43.0


From f9e091a73f33073ebf42709daa38730cd751e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 083/111] fix: accuracies in lists, other data, and piped
 models in Problems

---
 BayesicFitting/source/MultipleOutputProblem.py |  6 +++---
 BayesicFitting/source/Problem.py               | 13 +++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index d014f86..dc81964 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -72,8 +72,8 @@ class MultipleOutputProblem( Problem ):
 
         """
         if copy is None :
-            weights = self.expandFlat( weights, model.ndout )
-            accuracy = self.expandFlat( accuracy, model.ndout )
+            weights = self.expandFlat( weights, model.lastndout )
+            accuracy = self.expandFlat( accuracy, model.lastndout )
     
         super( ).__init__( model=model, xdata=xdata, ydata=ydata, weights=weights,
                            accuracy=accuracy, copy=copy )
@@ -144,7 +144,7 @@ class MultipleOutputProblem( Problem ):
         parts = self.model.partial( self.xdata, param )
 
         partial = parts[0]
-        for k in range( 1, self.model.ndout ) :
+        for k in range( 1, self.model.lastndout ) :
             partial = numpy.append( partial, parts[k], 1 )
 
         return partial.reshape( -1, self.npars )
diff --git a/BayesicFitting/source/Problem.py b/BayesicFitting/source/Problem.py
index c8e369a..5795612 100644
--- a/BayesicFitting/source/Problem.py
+++ b/BayesicFitting/source/Problem.py
@@ -136,11 +136,12 @@ class Problem( object ):
 
         """
         setatt( self, name, value )
-        if name == "weights" :
-            try :
-                delattr( self, "sumweight" )
-            except :
-                pass
+        if name in ["weights", "ydata"] :
+            for attr in ["sumweight", "ndata"] :        # they need to be recalculated
+                try :
+                    delattr( self, attr )
+                except :
+                    pass
         else :
             setatt( self, name, value )
 
@@ -184,7 +185,7 @@ class Problem( object ):
             When None the value is set to 0 (for easy computational reasons)
         """
         self.hasAccuracy = accuracy is not None
-        self.accuracy = accuracy if self.hasAccuracy else 0
+        self.accuracy = numpy.asarray( accuracy )[()] if self.hasAccuracy else 0
         self.varyy = self.accuracy * self.accuracy
 
     def hasWeights( self ):
-- 
2.43.0


From bc06d1e4a702dd9676703602d6bafab87e815405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 084/111] fix: keeping parameters fixed leaves the array with
 start parameters alone

---
 BayesicFitting/source/BaseFitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 6f98f9e..eb9ee54 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -316,7 +316,9 @@ class BaseFitter( object ):
             self.npfit = self.model.npchain - len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
-            self.model.parameters[list(keep.keys())] = list( keep.values() )
+            pars = numpy.array( self.model.parameters, dtype=float )    # leave the original alone
+            pars[list(keep.keys())] = list( keep.values() )
+            self.model.parameters = pars
             return fitIndex
 
     def insertParameters( self, fitpar, index=None, into=None ) :
-- 
2.43.0


From 4e1fabc86bfb3348781ac97c57e510de1150dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 085/111] fix: values of Kepler's problem mixed up between
 threads

---
 BayesicFitting/source/Kepplers2ndLaw.py      | 34 +++++++++++++++++---
 BayesicFitting/source/RadialVelocityModel.py | 10 ++----
 BayesicFitting/source/StellarOrbitModel.py   |  9 ++----
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/BayesicFitting/source/Kepplers2ndLaw.py b/BayesicFitting/source/Kepplers2ndLaw.py
index f260487..f046a52 100644
--- a/BayesicFitting/source/Kepplers2ndLaw.py
+++ b/BayesicFitting/source/Kepplers2ndLaw.py
@@ -325,6 +325,31 @@ class Kepplers2ndLaw( object ):
         v : array_like
             true anomaly
 
+        """
+        r, v, E, cosE, sinE = self.anomalies( xdata, params )
+
+        setatt( self, "eccAnomaly", E )
+        ## return radius and true anomaly
+        return ( r, v )
+
+    def anomalies( self, xdata, params ) :
+        """
+        Return the radius, the true anomaly, the eccentric anomaly and its cosine and sine.
+
+        All results are returned; the attributes might be overwritten by other threads.
+
+        Parameters
+        ----------
+        xdata : array_like
+            times in the orbit
+        params : array_like
+            parameters: eccentr, semimajor, inclin, ascpos, asclon, period, ppass
+
+        Returns
+        -------
+        ( r, v, E, cosE, sinE ) : tuple of array_like
+            radius, true anomaly, eccentric anomaly, cos( E ) and sin( E )
+
         """
         E = self.eccentricAnomaly( xdata, params )
 
@@ -332,17 +357,16 @@ class Kepplers2ndLaw( object ):
         semimaj = params[1]
 
         ## r = radius
-        cosE = self.cosE
+        cosE = numpy.cos( E )
+        sinE = numpy.sin( E )
         r = semimaj * ( 1 - eccen * cosE )
 
         ## v = true anomaly
         ef = math.sqrt( ( 1 + eccen ) / ( 1 - eccen ) )
 
-        v = 2 * numpy.arctan2( ef * self.sinE, 1 + cosE )
+        v = 2 * numpy.arctan2( ef * sinE, 1 + cosE )
 
-        setatt( self, "eccAnomaly", E )
-        ## return radius and true anomaly
-        return ( r, v )
+        return ( r, v, E, cosE, sinE )
 
     def drvdE( self, xdata, params, cosE, sinE ) :
         """
diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index 87ee58e..943a167 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -173,11 +173,7 @@ class RadialVelocityModel( NonLinearModel ) :
         np = self.npbase if parlist is None else len( parlist )
 
         pars = params[:4]
-        r, v = self.keppler.radiusAndTrueAnomaly( xdata, pars )
-
-        E = self.keppler.eccAnomaly
-        sinE = self.keppler.sinE
-        cosE = self.keppler.cosE
+        r, v, E, cosE, sinE = self.keppler.anomalies( xdata, pars )
 
         drde, drda, drdP, drdp, dvde, dvdP, dvdp = self.keppler.drvdpar( xdata, pars,
                                        E, cosE, sinE )
@@ -218,10 +214,8 @@ class RadialVelocityModel( NonLinearModel ) :
 
         """
         pars = params[:4]
-        r, v = self.keppler.radiusAndTrueAnomaly( xdata, pars )
+        r, v, E, cosE, sinE = self.keppler.anomalies( xdata, pars )
 
-        sinE = self.keppler.sinE
-        cosE = self.keppler.cosE
         drdx, dvdx = self.keppler.drvdx( xdata, pars, cosE, sinE )
 
         return - params[1] * numpy.sin( v + params[4] ) * dvdx
diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index a148152..7973040 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -226,11 +226,9 @@ class StellarOrbitModel( NonLinearModel ):
         dfdx = numpy.zeros( ( len( xdata ), 2 ), dtype=float )
 
         p = params[:4]
-        r, v = self.keppler.radiusAndTrueAnomaly( xdata, p )
+        r, v, E, cosE, sinE = self.keppler.anomalies( xdata, p )
 
-        cosE = self.keppler.cosE
         cosE = numpy.where( cosE == -1, -0.99999, cosE )
-        sinE = self.keppler.sinE
         drdx, dvdx = self.keppler.drvdx( xdata, p, cosE, sinE )
 
         vp = v + asclon
@@ -294,12 +292,9 @@ class StellarOrbitModel( NonLinearModel ):
         asclon = params[6]
 
         p = params[:4]
-        r, v = self.keppler.radiusAndTrueAnomaly( xdata, p )
+        r, v, E, cosE, sinE = self.keppler.anomalies( xdata, p )
 
-        cosE = self.keppler.cosE
         cosE = numpy.where( cosE == -1, -0.99999, cosE )
-        sinE = self.keppler.sinE
-        E = self.keppler.eccAnomaly
         drde, drda, drdP, drdp, dvde, dvdP, dvdp = self.keppler.drvdpar( xdata, p,
                                                    E, cosE, sinE )
 
-- 
2.43.0


From 98042744b2d2a25ba6be069e49fa3a8bf13a5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 086/111] fix: errors in a thread reported again in later runs

---
 BayesicFitting/source/Explorer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index 741f561..07800e7 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -118,6 +118,7 @@ class Explorer( object ):
 
         ## We have Threads
         explorerThreads = []
+        del threadErrors[:]                 # forget errors of earlier runs
         self.lowLhood = lowLhood
 
         nrep = Engine.NCALLS
-- 
2.43.0


From 070969bffc760300e38ee6e5c127cee035d20902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 087/111] fix: threads sharing the collection of phantoms and
 the list of walkers

---
 BayesicFitting/source/PhantomCollection.py | 20 ++++++++++++++++++++
 BayesicFitting/source/WalkerList.py        | 11 ++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index c88c940..bd01ea1 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -1,5 +1,7 @@
 import numpy as numpy
 import math
+from functools import wraps
+from threading import RLock
 
 from .Walker import Walker
 from .WalkerList import WalkerList
@@ -29,6 +31,20 @@ __status__ = "Perpetual Beta"
 #  *
 #  *           2024 Do Kester
 
+## The collection is shared by the threads of the Explorer
+lock = RLock()
+
+def synchronized( method ) :
+    """
+    Decorator for methods that can be executed by one thread at a time only.
+    """
+    @wraps( method )
+    def synchmethod( *args, **kwargs ) :
+        with lock :
+            return method( *args, **kwargs )
+    return synchmethod
+
+
 class PhantomCollection( object ):
     """
     Helper class for NestedSamplers Engines to collect all trial walkers
@@ -119,6 +135,7 @@ class PhantomCollection( object ):
         """
         return self.phantoms
  
+    @synchronized
     def storeItems( self, walker ) :
         """
         Store both items as arrays.
@@ -155,6 +172,7 @@ class PhantomCollection( object ):
             self.paramMax = numpy.nanmax( pars, axis=0 )
 
 
+    @synchronized
     def getParamMinmax( self, lowLhood, np=0 ):
         """
         Obtain the min and max values of the present parameter values.
@@ -199,6 +217,7 @@ class PhantomCollection( object ):
         np = walker.problem.npars
         return self.phantoms[np] if np in self.phantoms else None
 
+    @synchronized
     def storeDynamic( self, walker ) :
         """
         Put both items in the dictionaries with npars as key
@@ -247,6 +266,7 @@ class PhantomCollection( object ):
 
         return
 
+    @synchronized
     def getDynamic( self, lowLhood, np=0 ):
         """
         Return the min and max values of the present parameters of length np.
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index c36319c..8bcb587 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -1,6 +1,7 @@
 import numpy as numpy
 from astropy import units
 import math
+from threading import Lock
 from . import Tools
 from .Tools import setAttribute as setatt
 from .Walker import Walker
@@ -34,6 +35,9 @@ __status__ = "Perpetual Beta"
 #  *    2017 - 2024 Do Kester
 
 
+## several threads might append to the same list
+appendLock = Lock()
+
 class WalkerList( list ):
     """
     WalkerList is a list of Walker.
@@ -117,9 +121,10 @@ class WalkerList( list ):
             self[index] = walker
 
         else :
-            walker.id = self._count
-            self._count += 1
-            self.append( walker )
+            with appendLock :
+                walker.id = self._count
+                self._count += 1
+                self.append( walker )
 
     def copy( self, src, des, wlist=None, start=0 ):
         """
-- 
2.43.0


From a3112dbcc49f5ecc275d957feda5821c8061abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 088/111] fix: evidence as likelihood of a model: weights,
 other structures, nested sampling as arbiter, copies

---
 BayesicFitting/source/HarmonicDynamicModel.py |  2 +-
 BayesicFitting/source/ModelDistribution.py    | 46 ++++++++++++++++---
 .../source/PolynomialDynamicModel.py          |  2 +-
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/HarmonicDynamicModel.py b/BayesicFitting/source/HarmonicDynamicModel.py
index 4857b01..92be6b0 100644
--- a/BayesicFitting/source/HarmonicDynamicModel.py
+++ b/BayesicFitting/source/HarmonicDynamicModel.py
@@ -145,7 +145,7 @@ class HarmonicDynamicModel( HarmonicModel, Dynamic ):
                                      period=self.period, copy=self )
 
     def isDynamic( self ) :
-        return True
+        return not self.isStatic() or super( ).isDynamic()
 
     def changeNComp( self, dn ) :
         setatt( self, "order", self.order + dn )
diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 6ef8682..0acf6ea 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -1,10 +1,13 @@
 import numpy as numpy
 import math
 import sys
+from copy import copy as shallowcopy
 
 #from .ErrorDistribution import ErrorDistribution
 from .ScaledErrorDistribution import ScaledErrorDistribution
 from .LinearModel import LinearModel
+from .Dynamic import Dynamic
+from .Modifiable import Modifiable
 from .Fitter import Fitter
 from .BaseFitter import BaseFitter
 from .CurveFitter import CurveFitter
@@ -99,7 +102,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return ModelDistribution( copy=self, arbiter=self.arbiter )
+        return ModelDistribution( copy=self, arbiter=self.arbiter, **self.kwarbs )
 
     def acceptWeight( self ):
         """
@@ -151,6 +154,12 @@ class ModelDistribution( ScaledErrorDistribution ):
                             **kwarbs )
         elif isinstance( self.arbiter, BaseFitter ) :
             ftr = self.arbiter
+            if ftr.model is not mdl :
+                ## the same fitter, for the model in the problem
+                ftr = shallowcopy( ftr )
+                ftr.model = mdl
+                ftr.fitIndex = ftr.keepFixed( ftr.keep )
+                ftr.needsNewDecomposition = True
 
         elif not isinstance( self.arbiter, str ) :
             raise ValueError( "Cannot interpret %s as string or fitter" % self.arbiter )
@@ -175,20 +184,28 @@ class ModelDistribution( ScaledErrorDistribution ):
                 ######################################################
 
                 ## we need a static version of the model
-                model = mdl.copy( modifiable=False, dynamic=False )
+                model = self.staticCopy( mdl )
 
                 ## add items to kwarbs if not already present
+                kwarbs = dict( kwarbs )
                 if not "ensemble" in kwarbs :
                     kwarbs["ensemble"] = 10
                 if not "verbose" in kwarbs :
                     kwarbs["verbose"] = 0
                 if not "engines" in kwarbs :
                     kwarbs["engines"] = ["chord", "step"]
+                if noiselim is not None and not "limits" in kwarbs :
+                    kwarbs["limits"] = noiselim
+                if problem.hasAccuracy :
+                    kwarbs["accuracy"] = problem.accuracy
                 ns = NestedSampler( model=model, xdata=problem.xdata, ydata=problem.ydata,
-                        weights=problem.weights, limits=noiselim, **kwarbs )
+                        weights=problem.weights, **kwarbs )
+                if fscale is not None and not "limits" in kwarbs :
+                    ns.scale = float( fscale )
 
                 try :
-                    evidence = ns.sample()
+                    ns.sample()
+                    evidence = ns.logZ
                     allpars[:mdl.npars] = ns.parameters
                     if noiselim is not None :
                         allpars[-1] = ns.scale
@@ -202,7 +219,8 @@ class ModelDistribution( ScaledErrorDistribution ):
 #        print( "MD Fitr    ", ftr ) 
 
         try :
-            pars = ftr.fit( problem.ydata )
+            accuracy = problem.accuracy if problem.hasAccuracy else None
+            pars = ftr.fit( problem.ydata, weights=problem.weights, accuracy=accuracy )
             evidence = ftr.getLogZ( limits=mdl.getLimits(), noiseLimits=noiselim )
 
             allpars[:mdl.npars] = pars
@@ -213,12 +231,28 @@ class ModelDistribution( ScaledErrorDistribution ):
 
         except numpy.linalg.LinAlgError :
             evidence = - sys.float_info.max
-        except ValueError :                         # math domain error
+        except ( ValueError, RuntimeError ) :       # math domain error; not enough data points
             evidence = - sys.float_info.max
 
 
         return evidence
 
+    def staticCopy( self, model ) :
+        """
+        Return a copy of the model with a fixed structure.
+        """
+        model = model.copy()
+        part = model
+        while part is not None :
+            if isinstance( part, Dynamic ) :
+                setatt( part, "dynamic", False )
+                if hasattr( part, "isDyna" ) :
+                    part.isDyna = False
+            if isinstance( part, Modifiable ) :
+                setatt( part, "modifiable", False )
+            part = part._next
+        return model
+
     def logLdata( self, problem, allpars, mockdata=None ) :
         """
         Return the log( likelihood ) for each residual
diff --git a/BayesicFitting/source/PolynomialDynamicModel.py b/BayesicFitting/source/PolynomialDynamicModel.py
index 3dd172e..c12fcac 100644
--- a/BayesicFitting/source/PolynomialDynamicModel.py
+++ b/BayesicFitting/source/PolynomialDynamicModel.py
@@ -141,7 +141,7 @@ class PolynomialDynamicModel( PolynomialModel, Dynamic ):
         return PolynomialDynamicModel( self.degree, copy=self )
 
     def isDynamic( self ) :
-        return True
+        return not self.isStatic() or super( ).isDynamic()
 
     def changeNComp( self, dn ) :
         setatt( self, "degree", self.degree + dn )
-- 
2.43.0


From 50890021e968406ad0444f60bd04b1ddf9242385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 089/111] fix: sanity check on evidences that are found by
 iteration

---
 BayesicFitting/source/Explorer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index 07800e7..f38c30e 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -2,6 +2,7 @@ import numpy as numpy
 from threading import Thread
 
 from .Engine import Engine
+from .ModelDistribution import ModelDistribution
 from .Formatter import formatter as fmt
 from . import Tools
 
@@ -268,7 +269,9 @@ class Explorer( object ):
             raise ValueError( "Inconsistency in length of modelparams (%d) and allpars (%d - %d)" %
                                 ( np, len( walker.allpars ), self.errdis.nphypar ) )
 
-        if wlogL != walker.logL :
+        ## an evidence that is found by iteration is reproduced within the tolerance of the fit
+        tol = 0.01 * ( 1 + abs( walker.logL ) ) if isinstance( self.errdis, ModelDistribution ) else 0
+        if wlogL != walker.logL and not abs( wlogL - walker.logL ) <= tol :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
-- 
2.43.0


From 341b13ae0f6f545f5c55b2877532fa3f49c38279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 090/111] fix: copies of error distributions; keepFixed,
 setLimits and setPriors of hyperparameters

---
 BayesicFitting/source/ErrorDistribution.py     | 18 ++++++++++--------
 .../source/ExponentialErrorDistribution.py     |  2 --
 BayesicFitting/source/HyperParameter.py        | 16 +++++++++++++++-
 .../source/ScaledErrorDistribution.py          |  6 ++----
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..e76cfe8 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -98,10 +98,10 @@ class ErrorDistribution( object ):
             self.deltaP = 0.000001
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
-        else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+        else :
+            self.hyperpar = [hp.copy() for hp in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = copy.fixed
             self.constrain = copy.constrain
 
     def copy( self ):
@@ -266,15 +266,15 @@ class ErrorDistribution( object ):
         if self.hyperpar is None :
             return None
 
-        # Reset all fixed to False
+        # Reset all that have a prior to variable
         for s in self.hyperpar :
-            s.fixed = False
+            s.isFixed = s.prior is None
 
         if fixed is None :
             return None
 
         for f in fixed.keys() :
-            self.hyperpar[f].fixed = True
+            self.hyperpar[f].isFixed = True
             self.hyperpar[f].hypar = fixed[f]
 
         return fixed
@@ -289,6 +289,8 @@ class ErrorDistribution( object ):
         priors  : (list of) Prior
             prior distribution for the hyperparameters
         """
+        if not isinstance( priors, ( list, tuple ) ) :
+            priors = [priors]
         for spp,pr in zip( self.hyperpar, priors ) :
             spp.setPrior( pr )
 
@@ -307,8 +309,8 @@ class ErrorDistribution( object ):
         if self.nphypar == 1 :
             self.hyperpar[0].setLimits( limits )
             return
-        low = limits[0]
-        high = limits[1]
+        low = numpy.atleast_1d( limits[0] )
+        high = numpy.atleast_1d( limits[1] )
         for spp,lo,hi in zip( self.hyperpar, low, high ) :
             spp.setLimits( [lo,hi] )
 
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index d4caeaf..54f75a6 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index e2103cc..9343034 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -121,10 +121,24 @@ class HyperParameter( object ):
             the [low,high] limits.
 
         """
-        self.checkPrior()
+        if self.prior is None :
+            self.prior = JeffreysPrior()
         self.prior.setLimits( limits )
         self.isFixed = False
 
+    def setPrior( self, prior ):
+        """
+        Set the prior; the hyperparameter is not fixed any more.
+
+        Parameters
+        ----------
+        prior : Prior
+            prior distribution for the hyperparameter
+
+        """
+        self.prior = prior
+        self.isFixed = False
+
     def getLimits( self ):
         """ Return the limits on the scale. """
         return self.prior.getLimits( )
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..cc5fbc1 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,9 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
 
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 7990a50433df00a89e1fa53277c0d6263bc947a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 091/111] fix: second derivatives of the Gauss likelihood

---
 .../source/GaussErrorDistribution.py          | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 0d7a6ba..885f8d6 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -260,6 +260,8 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
 
              hessian = d^2 logL / dp_i dp_k
 
+        The second derivatives of the model itself are neglected.
+
         Parameters
         ----------
         problem : Problem
@@ -271,26 +273,27 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         """
         self.nparts += 1                    ## counts calls to partialLogL
 
-        nh = len( fitIndex )
-        np = problem.npars
-        param = allpars[:np]
-        scale = allpars[np]
-        s2 = scale * scale
+        scale = allpars[-1]
+        ( res2, res ) = problem.weightedResSq( allpars, extra=True )
+        dM = problem.partial( allpars[:problem.npars] )
 
-        fi = fitIndex if fitIndex[-1] != np else fitIndex[-1:]
+        wgt = 1.0 if problem.weights is None else problem.weights
+        s2 = ( scale * scale + problem.varyy ) * numpy.ones_like( res )
 
-        nf = len( fi )
-        design = problem.partial( param )[:,fi]
-        design = design.transpose()
-        deswgt = design
-        if problem.hasWeights() :
-            deswgt *= problem.weights
+        ws = wgt / s2
+        s4 = res2 / ( s2 * s2 )
 
+        nh = len( fitIndex )
         hessian = numpy.zeros( ( nh, nh ), dtype=float )
-        hessian[:nf,:nf] = numpy.inner( design, deswgt ) / s2
-
-        if fitIndex[-1] == np :
-            hessian[nf,nf] = 2 * ( problem.ndata - nf ) / s2
+        for i,ki in enumerate( fitIndex ) :
+            for j,kj in enumerate( fitIndex[:i+1] ) :
+                if ki >= 0 and kj >= 0 :            ## both parameters
+                    h = - numpy.sum( dM[:,ki] * dM[:,kj] * ws )
+                elif ki < 0 and kj < 0 :            ## both the scale
+                    h = numpy.sum( s4 - ws ) + 2 * scale * scale * numpy.sum( ( ws - 2 * s4 ) / s2 )
+                else :
+                    h = - 2 * scale * numpy.sum( res * dM[:,max( ki, kj )] / ( s2 * s2 ) )
+                hessian[i,j] = hessian[j,i] = h
 
         return hessian
 
-- 
2.43.0


From 258d70066178a629c13eef75f7f8cfa3903d66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 092/111] fix: units of parameters of models with fixed
 parameters

---
 BayesicFitting/source/FixedModel.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 2a5622b..bf1df29 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -277,6 +277,30 @@ class FixedModel( BaseModel ):
             pars[k] = p
         return pars
 
+    def getParameterUnit( self, kpar ) :
+        """
+        Return the unit of the indicated parameter.
+
+        Parameters
+        ---------
+        kpar : int
+            parameter number; the fixed parameters are not counted.
+        """
+        if self.fixed is None :
+            return super( FixedModel, self ).getParameterUnit( kpar )
+
+        k = self.parlist[kpar]
+        if k < self.npmax :
+            return super( FixedModel, self ).getParameterUnit( k )
+
+        ## it is a parameter of one of the models that replace a parameter
+        k -= self.npmax
+        for m in self.fixed.keys() :
+            if m in self.mlist :
+                if k < self.fixed[m].npchain :
+                    return self.fixed[m].getParameterUnit( k )
+                k -= self.fixed[m].npchain
+
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param ):
         """
-- 
2.43.0


From dceb1c494f5bc83ecd0495e4292a9f0ad1468015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 093/111] fix: names and units of the parameters of
 SurfaceSplinesModel follow the order of the parameters

---
 BayesicFitting/source/SurfaceSplinesModel.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/SurfaceSplinesModel.py b/BayesicFitting/source/SurfaceSplinesModel.py
index 9ace790..97311ee 100644
--- a/BayesicFitting/source/SurfaceSplinesModel.py
+++ b/BayesicFitting/source/SurfaceSplinesModel.py
@@ -204,12 +204,12 @@ class SurfaceSplinesModel( LinearModel ):
             the kth parameter.
 
         """
-        strpar = "param"
-        for mdl in self.models :
+        strpar = ""
+        for mdl in reversed( self.models ) :
             nx = mdl.npbase
-            strpar = strpar + "_%d"%(k%nx)
+            strpar = "_%d"%(k%nx) + strpar
             k = k // nx
-        return strpar
+        return "param" + strpar
 
     def baseParameterUnit( self, k ):
         """
@@ -221,14 +221,14 @@ class SurfaceSplinesModel( LinearModel ):
 
         """
         u = self.yUnit
-        n = 0
-        for mdl in self.models :
+        n = len( self.models )
+        for mdl in reversed( self.models ) :
+            n -= 1
             nx = mdl.npbase
             j = k % nx
-            if j > 3 : j = 3
+            if j > mdl.order : j = mdl.order
             k = k // nx
             u = u / ( self.xUnit[n] ** j )
-            n += 1
         return u
 
 
-- 
2.43.0


From f54d0ea081799f415f2de1c2ea26f24627e31a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 094/111] fix: units of parameters of PolySurface, PseudoVoigt,
 SoftMax and SineSpline(Drift) models

---
 BayesicFitting/source/PolySurfaceModel.py     | 2 +-
 BayesicFitting/source/PseudoVoigtModel.py     | 3 +++
 BayesicFitting/source/SineSplineDriftModel.py | 6 +++++-
 BayesicFitting/source/SineSplineModel.py      | 2 +-
 BayesicFitting/source/SoftMaxModel.py         | 2 +-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/PolySurfaceModel.py b/BayesicFitting/source/PolySurfaceModel.py
index c4ea41a..9f13e11 100644
--- a/BayesicFitting/source/PolySurfaceModel.py
+++ b/BayesicFitting/source/PolySurfaceModel.py
@@ -266,6 +266,6 @@ class PolySurfaceModel( LinearModel ):
         while k > dk:
             dk += 1
             k -= dk
-        return self.yUnit / ( ( self.xUnit[0]**k ) * ( self.xUnit[1] ** (dk-k) ) )
+        return self.yUnit / ( ( self.xUnit[0] ** (dk-k) ) * ( self.xUnit[1] ** k ) )
 
 
diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e18df2c..b676c92 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -1,4 +1,5 @@
 import numpy as numpy
+from astropy import units
 import math
 from . import Tools
 from .Tools import setAttribute as setatt
@@ -206,6 +207,8 @@ class PseudoVoigtModel( NonLinearModel ):
         """
         if k == 0:
             return self.yUnit
+        if k == 3:
+            return units.Unit( 1.0 )
         return self.xUnit
 
 
diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index ffa93f5..8597811 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -1,4 +1,5 @@
 import numpy as numpy
+from astropy import units
 import math
 from . import Tools
 from .Tools import setAttribute as setatt
@@ -243,7 +244,10 @@ class SineSplineDriftModel( NonLinearModel ):
             the kth parameter.
 
         """
-        k = k % ( self.npbase / 2 )
+        if k <= self.degree :
+            return units.Unit( units.si.rad ) / ( self.xUnit ** ( k + 1 ) )
+
+        k = ( k - self.degree - 1 ) % ( ( self.npmax - self.degree - 1 ) // 2 )
         if k > self.order :
             k = self.order
         return self.yUnit / ( self.xUnit ** k )
diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index b685745..78e40e4 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -219,7 +219,7 @@ class SineSplineModel( LinearModel ):
             the kth parameter.
 
         """
-        k = k % ( self.npbase / 2 )
+        k = k % ( self.npmax // 2 )
         if k > self.order :
             k = self.order
         return self.yUnit / ( self.xUnit ** k )
diff --git a/BayesicFitting/source/SoftMaxModel.py b/BayesicFitting/source/SoftMaxModel.py
index d11bd86..b02867e 100644
--- a/BayesicFitting/source/SoftMaxModel.py
+++ b/BayesicFitting/source/SoftMaxModel.py
@@ -226,6 +226,6 @@ class SoftMaxModel( NonLinearModel ):
             parameter number.
 
         """
-        xu = 1 if k > self.ndim * self.ndout else ( self.xUnit if self.ndim == 1 else self.xUnit[k % self.ndim] )
+        xu = 1 if k >= self.ndim * self.ndout else ( self.xUnit if self.ndim == 1 else self.xUnit[k % self.ndim] )
         return units.Unit( 1 ) / xu
 
-- 
2.43.0


From 6310932571bf159673102d6ab602174ac802b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 095/111] fix: units of parameters of Product and Combi models

---
 BayesicFitting/source/CombiModel.py   |  3 +++
 BayesicFitting/source/ProductModel.py | 26 ++++++++++----------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3da7922..cdb00a6 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -368,6 +368,9 @@ class CombiModel( BracketModel ):
             parameter number.
 
         """
+        if self.model.npbase == self.nmp :
+            self.model.xUnit = self.xUnit
+            self.model.yUnit = self.yUnit
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
     def setPrior( self, kpar, prior=None, **kwargs ) :
diff --git a/BayesicFitting/source/ProductModel.py b/BayesicFitting/source/ProductModel.py
index 1035d0f..620647c 100644
--- a/BayesicFitting/source/ProductModel.py
+++ b/BayesicFitting/source/ProductModel.py
@@ -224,24 +224,18 @@ class ProductModel( NonLinearModel ):
             the kth parameter.
 
         """
-        u = units.Unit( 1.0 )
-        n = 0
-
-#        print( self.attsingle )
-#        print( self.models[0].attsingle )
-#        print( self.models[1].attsingle )
-#        print( self.models[0].xUnit, self.models[1].xUnit )
-
-        for mdl in self.models :
-            mdl.xUnit = self.xUnit[n]
-#            print( mdl.ndim, mdl.xUnit, self.xUnit[n] )
-            nx = mdl.npbase
+        ## the first model carries the unit of the product
+        u = self.yUnit
+        for n,mdl in enumerate( self.models ) :
+            nx = mdl.npchain
             if k < nx :
-#                print( k, nx, mdl.getParameterUnit( k ), u )
-                return mdl.getParameterUnit( k ) / u
-            n += 1
+                while mdl is not None :
+                    mdl.xUnit = self.xUnit[n]
+                    mdl.yUnit = u
+                    mdl = mdl._next
+                return self.models[n].getParameterUnit( k )
             k -= nx
-            u = self.yUnit
+            u = units.Unit( 1.0 )
         return u
 
 
-- 
2.43.0


From f86704a42fae8bb065677125864724f8805390a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 096/111] fix: scale of maximum likelihood fits without
 weights; asking for it does not alter the likelihood

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index cbfc9ad..c7ba71c 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -305,6 +305,10 @@ class _LogL( _Chisq ) :
 
         super( _LogL, self ).__init__( outer, data, weights, index=index )
 
+        ## fitprolog combines "no weights" or one accuracy for all into one number
+        if weights is not None and numpy.ndim( weights ) == 0 :
+            weights = numpy.full( numpy.shape( data ), weights, dtype=float )
+
         self.problem = ClassicProblem( outer.model, xdata=outer.xdata, ydata=data,
             weights=weights )
 
@@ -340,8 +344,7 @@ class _LogL( _Chisq ) :
         if len( self.hypar ) <=1 :
             return errdis.toSigma( scl ) 
         else :
-            self.hypar[0] = scl
-            return errdis.toSigma( self.hypar ) 
+            return errdis.toSigma( [scl] + list( self.hypar[1:] ) )
 
 
     def func( self, par ) :
-- 
2.43.0


From 0459fb1c010eba46533779ad65ed2f63465a1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 097/111] fix: scale from the residuals in Exponential and
 Uniform error distributions

---
 BayesicFitting/source/ExponentialErrorDistribution.py | 3 ++-
 BayesicFitting/source/UniformErrorDistribution.py     | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 54f75a6..2a97215 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -235,7 +235,8 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         """
         power = allpars[-1]
         chi = self.getChipow( problem, allpars=allpars )
-        return math.pow( chi / problem.sumweight, 1.0 / power )
+        ## the average of |residual|^power is scale^power / power
+        return math.pow( power * chi / problem.sumweight, 1.0 / power )
 
 
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index a59fda0..a7d98bf 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -110,6 +110,8 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             list of all parameters in the problem
         """
         res = self.getResiduals( problem, allpars=allpars )
+        if problem.hasWeights() :
+            res = numpy.where( problem.weights == 0, 0, res )
         return numpy.max( numpy.abs( res ) )
 
     def toSigma( self, scale ) :
-- 
2.43.0


From af08d003c5af2c9eb2e7fc55d70a9c3c9b25c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 098/111] fix: refused limits leave a prior as it was

---
 BayesicFitting/source/Prior.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index 2a9f6f7..4cc9edb 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -174,19 +174,19 @@ class Prior( object ):
 
         """
 #        print( "Prior 1 ", limits )
-        if limits is None :
-            self.lowLimit  = self._lowDomain
-            self.highLimit = self._highDomain
-            reset = False
-        else :
-            self.lowLimit  = limits[0] if limits[0] is not None else self._lowDomain
-            self.highLimit = limits[1] if limits[1] is not None else self._highDomain
+        low = self._lowDomain
+        high = self._highDomain
+        reset = False
+        if limits is not None :
+            if limits[0] is not None : low = limits[0]
+            if limits[1] is not None : high = limits[1]
             reset = ( limits[0] is not None ) or ( limits[1] is not None )
 
-#        print( "Prior 2 ", self.lowLimit, self.highLimit )
-        if not ( self._lowDomain <= self.lowLimit < self.highLimit <= self._highDomain ) :
-            print( self._lowDomain, self.lowLimit, self.highLimit, self._highDomain )
-            raise ValueError( "Limits out of order or out of domain" )
+        if not ( self._lowDomain <= low < high <= self._highDomain ) :
+            raise ValueError( "Limits out of order or out of domain: %s < %s" % ( low, high ) )
+
+        self.lowLimit  = low
+        self.highLimit = high
 
         if self.isCircular() :
             self.circular = True        ## fold on the new limits
-- 
2.43.0


From 345bd87909f087f61a0096b2e12e6d44a57aa066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 099/111] fix: refusals: splines without range, more than 6
 convolutions, cost function of a solver, unlimited Jeffreys prior

---
 BayesicFitting/source/BSplinesModel.py  | 2 +-
 BayesicFitting/source/JeffreysPrior.py  | 2 +-
 BayesicFitting/source/NestedSolver.py   | 4 +++-
 BayesicFitting/source/SplinesModel.py   | 2 +-
 BayesicFitting/source/kernels/Tophat.py | 7 ++++---
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/BSplinesModel.py b/BayesicFitting/source/BSplinesModel.py
index b297ffa..4a15f81 100644
--- a/BayesicFitting/source/BSplinesModel.py
+++ b/BayesicFitting/source/BSplinesModel.py
@@ -159,7 +159,7 @@ class BSplinesModel( LinearModel ):
             knots = copy.knots
             order = copy.order
         if knots is not None : nrknots = len( knots )
-        elif nrknots is None :
+        elif nrknots is None or ( xrange is None and ( min is None or max is None ) ) :
             raise ValueError( "Need either knots or (nrknots,min,max) or (nrknots,xrange)" )
 
         super( BSplinesModel, self ).__init__( order + nrknots - 1, copy=copy, **kwargs )
diff --git a/BayesicFitting/source/JeffreysPrior.py b/BayesicFitting/source/JeffreysPrior.py
index 1659ee0..e0f1717 100644
--- a/BayesicFitting/source/JeffreysPrior.py
+++ b/BayesicFitting/source/JeffreysPrior.py
@@ -133,7 +133,7 @@ class JeffreysPrior( Prior ):
             value within the domain of a parameter
 
         """
-        if math.isnan( self._urng ) :
+        if not math.isfinite( self._urng ) :
             raise AttributeError( "Limits are needed for JeffreysPrior" )
         try :
             return 0 if self.isOutOfLimits( x ) else 1.0 / ( x * self._urng )
diff --git a/BayesicFitting/source/NestedSolver.py b/BayesicFitting/source/NestedSolver.py
index 4deebb1..395ee2a 100644
--- a/BayesicFitting/source/NestedSolver.py
+++ b/BayesicFitting/source/NestedSolver.py
@@ -224,7 +224,7 @@ class NestedSolver( NestedSampler ):
         return str( "NestedSolver" )
 
     #  *********DISTRIBUTIONS***************************************************
-    def setErrorDistribution( self, name=None, scale=1.0, power=2.0 ):
+    def setErrorDistribution( self, name=None, limits=None, scale=1.0, power=2.0 ):
         """
         Set the error distribution for calculating the likelihood.
 
@@ -232,6 +232,8 @@ class NestedSolver( NestedSampler ):
         ----------
         name : string
             name of distribution
+        limits : None
+            not used; there are no hyperparameters
         scale : float
             fixed scale of distribution
         power : float
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index af6c805..e107059 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -143,7 +143,7 @@ class SplinesModel( LinearModel ):
             knots = copy.knots
             order = copy.order
         if knots is not None : nrknots = len( knots )
-        elif nrknots is None :
+        elif nrknots is None or ( xrange is None and ( min is None or max is None ) ) :
             raise ValueError( "Need either knots or (nrknots,min,max) or (nrknots,xrange)" )
 
         if 'nparams' in kwargs :
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 8004bb5..c33e73c 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -58,6 +58,9 @@ class Tophat( Kernel ):
         """
 
 
+        if not 0 <= nconv <= 6 :
+            raise ValueError( "Cannot handle more than 6 convolutions." )
+
         super( Tophat, self ).__init__( integral=self.INTEGRAL[nconv],
                         fwhm=2*self.FWHM[nconv], range=self.RANGE[nconv] )
         self.nconv = nconv
@@ -74,10 +77,8 @@ class Tophat( Kernel ):
             self.conv = Conv4()
         elif nconv == 5 :
             self.conv = Conv5()
-        elif nconv == 6 :
-            self.conv = Conv6()
         else :
-            raise ValueError( "Cannot handle more than 6 convolutions." )
+            self.conv = Conv6()
 
     def result( self, x ):
         return self.conv.result( x )
-- 
2.43.0


From 15fac13e4f90d31009445031dd529956ffe2f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 100/111] fix: the printed formula of a model is the one it
 evaluates

---
 BayesicFitting/source/EtalonDriftModel.py |  2 +-
 BayesicFitting/source/FixedModel.py       | 17 +++--------------
 BayesicFitting/source/PolySineAmpModel.py |  2 +-
 3 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index fed8516..3a901b0 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -185,7 +185,7 @@ class EtalonDriftModel( NonLinearModel ):
 
         """
         return ( "EtalonDrift: f( x,y:p ) = p_0 / " +
-                 "( 1 + p_1 * sin^2( PI * ( x * p_2 + p_3 + y * p_4 ) )" )
+                 "( 1 + p_1^2 * sin^2( PI * ( x * p_2 + p_3 + y * p_4 ) ) )" )
 
     def baseParameterUnit( self, k ):
         """
diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index bf1df29..c90b6f3 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -520,9 +520,9 @@ class FixedModel( BaseModel ):
             for k in self.fixed.keys() :
                 par = r"p_%d([^0-9]|$)"%k
                 if k in self.mlist :
-                    val = r"(%s) " % self.fixed[k].shortName()
+                    val = r"(%s)\1" % self.fixed[k].shortName()
                 else :
-                    val = r"(%.1f) "%self.fixed[k]
+                    val = r"(%.1f)\1"%self.fixed[k]
                 basename = re.sub( par, val, basename )
 
             i = 0
@@ -535,18 +535,7 @@ class FixedModel( BaseModel ):
 
         if npars == 0 : return basename
 
-        i = 0
-        while True :
-            mo = re.search( r'p_([0-9]+)', basename, flags=re.MULTILINE )
-            if mo is None : break
-
-            span = mo.span()
-            k = int( basename[span[0]+2:span[1]] )
-            basename = re.sub( r'p_%d'%k, r'q_%d'%(k+npars), basename, flags=re.MULTILINE )
-
-        basename = basename.replace( "q_", "p_" )
-
-        return basename
+        return re.sub( r'p_([0-9]+)', lambda mo : "p_%d" % ( int( mo.group( 1 ) ) + npars ), basename )
 
 
 
diff --git a/BayesicFitting/source/PolySineAmpModel.py b/BayesicFitting/source/PolySineAmpModel.py
index 691a73f..9e7cbc7 100644
--- a/BayesicFitting/source/PolySineAmpModel.py
+++ b/BayesicFitting/source/PolySineAmpModel.py
@@ -191,7 +191,7 @@ class PolySineAmpModel( LinearModel ):
             bn2 += " + p_%d * y"%(np+1)
         for k in range( 2, np ) :
             bn1 += " + p_%d * y^%d"%(k,k)
-            bn2 += " + p_%d * y^%d"%(np+k,np+k)
+            bn2 += " + p_%d * y^%d"%(np+k,k)
         bn1 += " ) * cos( 2 pi * x * f ) +\n" + bn2
         bn1 += " ) * sin( 2 pi * x * f ); f = %f"%self.frequency
         return bn1
-- 
2.43.0


From fd5ae66da4565fb49a0a151cf35c052294cf2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 101/111] fix: reports of hyperparameters, ylim of
 plotSampleList, callback of LevenbergMarquardtFitter

---
 .../source/LevenbergMarquardtFitter.py           |  2 ++
 BayesicFitting/source/MixedErrorDistribution.py  | 16 ++++++++++++++++
 BayesicFitting/source/NestedSampler.py           | 15 ++++++++-------
 BayesicFitting/source/Plotter.py                 |  2 ++
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index dbcfc47..65678b2 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -203,6 +203,8 @@ class LevenbergMarquardtFitter( IterativeFitter ):
         while self.iter < maxiter :
 
             trypar, trychi = self.trialfit( trypar, fitIndex, data, fitWgts, verbose, maxiter )
+            if callback is not None :
+                trypar = callback( trypar )
             self.model.parameters = trypar
 
             tol = tolerance if self.chi < 1 else tolerance * self.chi
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 1616108..2de89fe 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -248,6 +248,22 @@ class MixedErrorDistribution( ErrorDistribution ):
                 yield f * lhd1 * next( pg1 )
 
 
+    def hyparname( self, k ) :
+        """
+        Return name of the hyperparameter
+
+        Parameters
+        ----------
+        k : int
+            index of the hyperparameter
+        """
+        n1 = self.errdis1.nphypar
+        if k < n1 :
+            return self.errdis1.hyparname( k )
+        if k < n1 + self.errdis2.nphypar :
+            return self.errdis2.hyparname( k - n1 )
+        return "fraction"
+
     def __str__( self ) :
         n1 = re.match( "^[a-zA-Z_]*", self.errdis1.__str__() ).group(0)
         n2 = re.match( "^[a-zA-Z_]*", self.errdis2.__str__() ).group(0)
diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 28b1bc6..829fc4a 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -598,15 +598,16 @@ class NestedSampler( object ):
             else :
                 print( " ", self.problem )
             print( "Using a", self.distribution, end="" )
-            np = -1
+            np = -self.distribution.nphypar
             cstr = " with "
-            for name,hyp in zip( self.distribution.PARNAMES, self.distribution.hyperpar ) :
+            for k,hyp in enumerate( self.distribution.hyperpar ) :
+                name = self.distribution.hyparname( k )
                 print( cstr, end="" )
                 if np in fitIndex :
                     print( "unknown %s" % name, end="" )
                 else :
                     print( "%s = %7.2f " % (name, hyp.hypar), end="" )
-                np -= 1
+                np += 1
                 cstr = " and "
             print( "\nMoving the walkers with ", end="" )
             for eng in self.engines :
@@ -617,8 +618,8 @@ class NestedSampler( object ):
 
         tail = 0
         if self.verbose > 1 :
-            while fitIndex is not None and fitIndex[-tail-1] < 0 and len( fitIndex ) > tail + 1 : 
-                tail += 1
+            hyps = [k for k in fitIndex if k < 0]
+            tail = len( hyps )
 
 #            tail = self.distribution.nphypar
             if tail == 0 :
@@ -627,8 +628,8 @@ class NestedSampler( object ):
                 print( "Iteration     logZ        H       LowL     npar parameters", end="" )
                 for k in range( 1,  min( 5, len( fitIndex ) - tail ) ) :
                     print( "        ", end="" )
-                for k in range( tail ) :
-                    print( "   %s" %self.distribution.hyparname( k ), end="" )
+                for k in hyps :
+                    print( "   %s" % self.distribution.hyparname( k + self.distribution.nphypar ), end="" )
                 print( "" )
 
         return tail
diff --git a/BayesicFitting/source/Plotter.py b/BayesicFitting/source/Plotter.py
index e62d357..ed47cbc 100644
--- a/BayesicFitting/source/Plotter.py
+++ b/BayesicFitting/source/Plotter.py
@@ -261,6 +261,8 @@ def plotSampleList( sl, xdata, ydata, errors=None, npt=10000,
         yhi = max( numpy.amax( ydata ), numpy.amax( yfit ) )
         ylo -= 0.05 * ( yhi - ylo )
         yhi += 0.05 * ( yhi - ylo )
+    else :
+        ylo, yhi = tuple( ylim )
 
     if xlim is None :
         xlo -= 0.05 * xrng
-- 
2.43.0


From d1b343481a451d852029fea11e033d4ac03479e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:20 +0000
Subject: [PATCH 102/111] fix: automatic method selection at each fit, callable
 constraints and gradient in ScipyFitter

---
 BayesicFitting/source/MaxLikelihoodFitter.py |  7 ++++---
 BayesicFitting/source/ScipyFitter.py         | 12 +++++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index c7ba71c..fcb587b 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -248,10 +248,11 @@ class _Chisq( object ):
 
     def userdfunc( self, par ):
         """
-        Return an efficient calculation of the gradient.
+        Return the gradient as provided by the user.
         """
-        return self._outer.userGradient( self._outer.xdata, par, self._data,
-                                  weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        grad = numpy.asarray( self._outer.userGradient( param ) )
+        return grad if self._index is None else grad[self._index]
 
     def dfunc( self, par ):
         """
diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index f6358c9..25dc1b9 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -166,6 +166,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
         self.userGradient = gradient
         self.userHessp = hessp
         self.method = None if method is None else str.upper( method )
+        self.automatic = None           # method as selected automatically
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
@@ -235,7 +236,15 @@ class ScipyFitter( MaxLikelihoodFitter ):
             limits = [numpy.broadcast_to( lim, npar )[fitIndex] for lim in limits]
             limits = list( zip( *limits ) )
 
-        if self.method is None:
+        # callables as inequality constraints on all parameters: cf( par ) > 0
+        if callable( constraints ) :
+            constraints = [constraints]
+        if isinstance( constraints, (list,tuple) ) :
+            constraints = [{'type':'ineq',
+                'fun': lambda p, cf=cf : cf( self.insertParameters( p, index=fitIndex ) )}
+                if callable( cf ) else cf for cf in constraints]
+
+        if self.method is None or self.method == self.automatic :
             # Select automatically
             if constraints:
                 self.method = 'SLSQP'
@@ -243,6 +252,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
                 self.method = 'L-BFGS-B'
             else:
                 self.method = 'BFGS'
+            self.automatic = self.method
 
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
-- 
2.43.0


From a1111ca16a142ceb1c4ddca47af4e440df4bb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 103/111] fix: AmoebaFitter uses maxIter and tolerance of its
 constructor, gradient of the likelihood without index

---
 BayesicFitting/source/AmoebaFitter.py        | 15 ++++++++-------
 BayesicFitting/source/MaxLikelihoodFitter.py |  3 +++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 3d5cb07..cf3f587 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -103,8 +103,8 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
     #  *************************************************************************
     def fit( self, data, weights=None, par0=None, keep=None, size=None,
-                    seed=4567, temp=0, limits=None, maxiter=1000,
-                    tolerance=0.0001, cooling=0.95, steps=10,
+                    seed=4567, temp=0, limits=None, maxiter=None,
+                    tolerance=None, cooling=0.95, steps=10,
                     verbose=0, plot=False, accuracy=None, callback=None ):
 ### TBC parameter defaults
 
@@ -164,6 +164,9 @@ class AmoebaFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
+        if maxiter is None : maxiter = self.maxIter
+        if tolerance is None : tolerance = self.tolerance
+
         func = self.makeFuncs( data, weights=weights, index=fitIndex, ret=1 )
 
         if par0 is None :
@@ -182,11 +185,9 @@ class AmoebaFitter( MaxLikelihoodFitter ):
         if limits is not None :
             npar = self.model.npchain           ## limits on the parameters to be fitted
             kwargs["limits"] = [numpy.broadcast_to( lim, npar )[fitIndex] for lim in limits]
-        if maxiter is not None :
-            kwargs["maxiter"] = maxiter
-        if tolerance is not None :
-            kwargs["reltol"] = tolerance
-            kwargs["abstol"] = tolerance
+        kwargs["maxiter"] = maxiter
+        kwargs["reltol"] = tolerance
+        kwargs["abstol"] = tolerance
         if cooling is not None :
             kwargs["cooling"] = cooling
         if steps is not None :
diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index fcb587b..955fe6b 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -304,6 +304,9 @@ class _LogL( _Chisq ) :
             power if applicable in errdis
         """
 
+        if index is None :
+            index = numpy.arange( outer.model.npchain )
+
         super( _LogL, self ).__init__( outer, data, weights, index=index )
 
         ## fitprolog combines "no weights" or one accuracy for all into one number
-- 
2.43.0


From 058975abf5a219c2b317269a3cab6675e9635464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:06 +0000
Subject: [PATCH 104/111] fix: neural net layers of different sizes can be
 connected

---
 BayesicFitting/source/NeuralNetUtilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NeuralNetUtilities.py b/BayesicFitting/source/NeuralNetUtilities.py
index 24f1a29..7a7e6bd 100644
--- a/BayesicFitting/source/NeuralNetUtilities.py
+++ b/BayesicFitting/source/NeuralNetUtilities.py
@@ -49,9 +49,10 @@ class BaseNeuralNetworkUtilities( object ) :
 
 
     def pipe( self, dfdr, drdp ) :
-        dfdp = numpy.zeros_like( drdp )
+        ( nrout, ndata, nip ) = drdp.shape
+        ndout = dfdr.shape[0]
+        dfdp = numpy.zeros( ( ndout, ndata, nip ), dtype=float )
 
-        ( ndout, ndata, nip ) = drdp.shape
         for k in range( nip ) :
             for i in range( ndata ) :
                 dfdp[:,i,k] = numpy.inner( dfdr[:,i,:], drdp[:,i,k] )
-- 
2.43.0


From 9b9c0c09b4770d6183ac4835c94d7b293183befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 105/111] fix: a boosted walker stays inside the prior and
 obeys the fit index; the chosen fitter and the weights are used

---
 BayesicFitting/source/Engine.py        | 38 ++++++++++++++++----------
 BayesicFitting/source/NestedSampler.py |  2 +-
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index bf887e2..b01ca03 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -204,29 +204,39 @@ class Engine( object ):
         """
         wlist = self.phantoms.getList( walker )
 
-        if wlist is None or wlist[-1].logL >= walker.logL :
+        if not wlist or wlist[-1].logL >= walker.logL :
             return
 
 #        print( "Best   ", fmt( walker.logL ) )
 #        print( fmt( walker.allpars, max=None ) )
 
         problem = walker.problem
+        model = problem.model
         nh = self.errdis.nphypar
-        par0 = walker.allpars[:-nh]
-        try :
-            self.fitter.model = problem.model
-            pars = self.fitter.fit( problem.ydata, par0=par0 )
-        except :
-            return
+        np = model.npars
 
-        if nh == 0 :
-            ptry = pars
-        elif walker.fitIndex[-1] == -1 :
-            ptry = numpy.append( pars, self.fitter.getScale() )
-        else :
-            ptry = numpy.append( pars, walker.allpars[-1] )
+        ## only the fitted parameters are boosted; the others stay where they are
+        fi = walker.fitIndex
+        fi = self.makeIndex( problem.npars, walker.allpars ) if fi is None else list( fi )
+        keep = {k : walker.allpars[k] for k in range( np ) if k not in fi}
+        ptry = walker.allpars.copy()
 
-        Ltry = self.errdis.logLikelihood( problem, ptry )
+        try :
+            self.fitter.model = model
+            ptry[:np] = self.fitter.fit( problem.ydata, weights=problem.weights,
+                accuracy=problem.accuracy if problem.hasAccuracy else None,
+                par0=ptry[:np], keep=keep if len( keep ) > 0 else None )
+            if nh > 0 and -nh in fi :
+                ptry[-nh] = self.fitter.getScale()
+
+            ## it needs to stay inside the prior domain
+            uval = self.domain2Unit( problem, ptry[fi], kpar=fi )
+            if not numpy.all( ( uval > 0 ) & ( uval < 1 ) ) :
+                return
+            ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
+            Ltry = self.errdis.logLikelihood( problem, ptry )
+        except Exception :
+            return
 
         if Ltry > walker.logL :
             walker.allpars = ptry
diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 829fc4a..4becfd4 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -893,7 +893,7 @@ class NestedSampler( object ):
                 self.copyWalker = self.copyWalkerFromDynamicPhantoms
             else :
                 self.copyWalker = self.copyWalkerFromPhantoms
-        elif name == "bestUpdate" :
+        elif name == "bestBoost" :
 
             self.myFitter = None
             if Tools.subclassof( value, BaseFitter ) :
-- 
2.43.0


From ce80376fef61fe92d69093c60cf5d142e611a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 106/111] fix: the derivative of BSplinesModel at its last knot
 is not zero

---
 BayesicFitting/source/BSplinesModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BSplinesModel.py b/BayesicFitting/source/BSplinesModel.py
index 4a15f81..c5665e5 100644
--- a/BayesicFitting/source/BSplinesModel.py
+++ b/BayesicFitting/source/BSplinesModel.py
@@ -242,7 +242,9 @@ class BSplinesModel( LinearModel ):
             parameters to the model
 
         """
-        xd = numpy.where( xdata == self.knots[-1], ( 1.0 - self.eps ) * self.knots[-1], xdata )
+        # the derivative at the last knot is the one just before it
+        last = numpy.nextafter( self.knots[-1], self.knots[0] )
+        xd = numpy.where( xdata == self.knots[-1], last, xdata )
 
         partial = Tools.toArray( self._bspline.collmat( xd, deriv_order=1 ), ndim=2 )
 
-- 
2.43.0


From 3e11db3df82025e0b8b3e3a2a6e78505f7ee1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:22 +0000
Subject: [PATCH 107/111] fix: fix2int handles negative numbers

---
 BayesicFitting/source/Tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 4f7c8df..2e0740e 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -477,7 +477,7 @@ def fix2int( x ) :
     x : array_like
         array of integer floats
     """
-    return numpy.fix( x + 0.000001 ).astype( int )
+    return numpy.rint( x ).astype( int )
 
 def track( statement ) :
     """
-- 
2.43.0


From 6ee70395d3a9725cc1827ea82f14d55745207811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:29 +0000
Subject: [PATCH 108/111] fix: the scale of a Cauchy distribution is found at
 any size of the residuals, with or without weights

---
 BayesicFitting/source/CauchyErrorDistribution.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 0829950..fd5042f 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -113,10 +113,15 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
             list of all parameters in the problem
         """
         res = self.getResiduals( problem, allpars=allpars )
-        self.res2 = res * res
-        self.sumweight = problem.sumweight
+        rmax = numpy.max( numpy.abs( res ) )
+        if rmax == 0 :
+            return 0.0
 
-        scale = scipy.optimize.bisect( self.funct, 0.001, 100.0 )
+        # the scale is found between 0 and the largest residual
+        self.res2 = numpy.square( res / rmax )
+        self.sumweight = self.res2.size             # weights are not used
+
+        scale = rmax * scipy.optimize.bisect( self.funct, 1e-10, 1.0 )
         return scale
 
     def funct( self, scale ) :
-- 
2.43.0


From 6ac2af64f081c9d7b375d4db33257875ffe29f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:29 +0000
Subject: [PATCH 109/111] fix: the residuals of a distribution without
 hyperparameters use all parameters

---
 BayesicFitting/source/ErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index e76cfe8..6a7158c 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -189,7 +189,7 @@ class ErrorDistribution( object ):
             param = problem.model.parameters
         else :
             nh = self.nphypar
-            param = allpars[:-nh]
+            param = allpars[:-nh] if nh > 0 else allpars
 
         return problem.residuals( param )
 
-- 
2.43.0


From 679d43a6403d183c948c0f3ef1134ead1fba0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:51 +0000
Subject: [PATCH 110/111] fix: the copy of a ConstantModel has its own constant

---
 BayesicFitting/source/ConstantModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ConstantModel.py b/BayesicFitting/source/ConstantModel.py
index 31a0354..6bc7f07 100644
--- a/BayesicFitting/source/ConstantModel.py
+++ b/BayesicFitting/source/ConstantModel.py
@@ -116,7 +116,8 @@ class ConstantModel( Model ):
         super( ConstantModel, self ).__init__( 0, ndim=ndim, copy=copy )
 
         if copy is not None :                  # copy from model
-            setatt( self, "fixedModel", copy.fixedModel )
+            fixed = copy.fixedModel
+            setatt( self, "fixedModel", None if fixed is None else fixed.copy() )
             setatt( self, "table", copy.table )
         elif table is not None :                # store tabular results
             setatt( self, "table", table, islist=True, type=float )
-- 
2.43.0


From 4e3b99e474092308e6b9bd8e23278e2acc870dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:37 +0000
Subject: [PATCH 111/111] fix: astropy models without analytic derivatives have
 numeric partials

---
 BayesicFitting/source/AstropyModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 7ca5f78..256c17c 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -140,6 +140,9 @@ class AstropyModel( Model ):
             list of indices active parameters (or None for all)
 
         """
+        if self.astromodel.fit_deriv is None :          # no analytic derivatives
+            return super().basePartial( xdata, params, parlist=parlist )
+
         if self.ndim == 1 :
             ap = self.astromodel.fit_deriv( xdata, *tuple( params ) )
         else :
-- 
2.43.0

