"""Creates /verif/seeded/* from the table below after confirming each change in a scratch copy.
usage: mkseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
S = "src/ondil/"
SEEDS = []
def seed(id, prop, file, subs, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=S + file, subs=subs, needs=needs, breaks=breaks, demo=textwrap.dedent(demo)))

H = "import numpy as np, warnings\nwarnings.filterwarnings('ignore')\n"
seed("y-gram-weights-batch", "C01", "gram.py",
 [("((X * np.expand_dims((w * f) ** 0.5, axis=-1)).T @ (y * (w * f) ** 0.5)), -1", "((X * np.expand_dims((w * f) ** 0.5, axis=-1)).T @ (y * w**0.5 * f)), -1")],
 "a batch update of at least two rows with forgetting", "the response Gram statistic of a batch update weights old rows by forget^1.5",
 """
 from ondil.gram import *
 r=np.random.default_rng(0); X=r.normal(size=(6,2)); y=r.normal(size=6); w=np.ones(6); G=np.zeros((2,1))
 a=update_y_gram(G,X,y,forget=0.3,w=w); e=(X*(0.7**np.arange(5,-1,-1))[:,None]).T@y
 assert np.allclose(a[:,0],e)
 """)
seed("rls-weight-of-first-row", "C02", "gram.py",
 [("forget=forget, w=w[i]\n", "forget=forget, w=w[i - 1]\n")],
 "a batch update of the inverse Gram matrix with unequal weights", "row i enters with the weight of row i-1",
 """
 from ondil.gram import *
 r=np.random.default_rng(0); X=r.normal(size=(9,2)); w=r.uniform(.2,3,9)
 G=init_inverted_gram(X[:5],w[:5],0.1); G=update_inverted_gram(G,X[5:],0.1,w[5:])
 assert np.allclose(G,init_inverted_gram(X,w,0.1))
 """)
seed("cd-active-set-from-start", "C03", "coordinate_descent.py",
 [("if (i < 2) | (beta_now[j] != 0):", "if (i < 2) | (beta[j] != 0):")],
 "more than one sweep from a start value with other non-zero coordinates", "coordinates that became non-zero are not refined; zero ones are",
 """
 from ondil.coordinate_descent import *
 r=np.random.default_rng(0); X=r.normal(size=(50,3)); X[:,2]+=2*X[:,1]; y=X@np.array([1.,2,3]); G=X.T@X; g=X.T@y
 inf=np.full(3,np.inf); reg=np.ones(3,bool)
 b,it=online_coordinate_descent(G,g,np.zeros(3),0.0,reg,1.0,-inf,inf,"cyclic",1e-12,5000)
 assert np.allclose(b,[1,2,3],atol=1e-5),b
 """)
seed("cd-clip-before-division", "C03", "coordinate_descent.py",
 [("""beta_now[j] = min(
                    max(update / denom, beta_lower_bound[j]), beta_upper_bound[j]
                )""", """beta_now[j] = (
                    min(max(update, beta_lower_bound[j]), beta_upper_bound[j]) / denom
                )""")],
 "finite bounds other than zero", "bounds are applied to the unscaled update",
 """
 from ondil.coordinate_descent import *
 G=np.array([[4.,0],[0,4.]]); g=np.array([8.,-8.]); reg=np.ones(2,bool)
 b,it=online_coordinate_descent(G,g,np.zeros(2),0.0,reg,1.0,np.array([0.5,-1.]),np.array([1.5,1.]),"cyclic",1e-8,100)
 assert np.allclose(b,[1.5,-1]),b
 """)
seed("path-early-stop", "C04", "coordinate_descent.py",
 [("np.count_nonzero(beta) >= early_stop:", "np.count_nonzero(beta) > early_stop:")],
 "early_stop > 0 with a start value that has exactly early_stop non-zero coefficients", "the path continues one coefficient too far",
 """
 from ondil.coordinate_descent import *
 G=np.eye(3)*10; g=np.array([30.,20,10.]); inf=np.full(3,np.inf); reg=np.ones(3,bool)
 P,it=online_coordinate_descent_path(G,g,np.zeros((4,3)),np.array([25.,15.,5.,1.]),reg,1.0,2,-inf,inf)
 assert np.count_nonzero(P[-1])==2,P
 """)
seed("path-previous-fit-row", "C04", "coordinate_descent.py",
 [("beta = beta_path[max(i, 0), :]\n\n", "beta = beta_path[max(i - 1, 0), :]\n\n")],
 "previous_fit start values together with a low iteration limit, early stopping, or several local active sets", "row i is started from the old row i-1",
 """
 from ondil.coordinate_descent import *
 G=np.array([[2.,1.5],[1.5,2.]]); g=np.array([1.,2.]); inf=np.full(2,np.inf); reg=np.ones(2,bool)
 old=np.array([[0.,0.],[3.,-2.],[1.,4.]])
 P,it=online_coordinate_descent_path(G,g,old,np.array([0.3,0.2,0.1]),reg,1.0,0,-inf,inf,"previous_fit","cyclic",1e-4,1)
 for i,l in enumerate([0.3,0.2,0.1]):
     b,_=online_coordinate_descent(G,g,old[i],l,reg,1.0,-inf,inf,"cyclic",1e-4,1)
     assert np.allclose(P[i],b)
 """)
seed("scaler-variance-weights", "C05", "scaler.py",
 [("self.var_ = np.average(diff_sq, weights=effective_weights, axis=0)", "self.var_ = np.average(diff_sq, weights=sample_weight, axis=0)")],
 "an initial fit with forgetting", "the initial variance ignores the forgetting weights",
 """
 from ondil.scaler import OnlineScaler
 r=np.random.default_rng(0); X=r.normal(size=(30,2))*np.linspace(1,5,30)[:,None]
 s=OnlineScaler(forget=0.1).fit(X); w=0.9**np.arange(29,-1,-1); m=np.average(X,weights=w,axis=0)
 assert np.allclose(s.var_,np.average((X-m)**2,weights=w,axis=0))
 """)
seed("scaler-forget-m-cross", "C05", "scaler.py",
 [("self._M * (1 - self.forget) + sample_weight[i] * diff_old * diff_new", "self._M * (1 - self.forget)\n                    + sample_weight[i] * (1 - self.forget) * diff_old * diff_new")],
 "an update with forgetting", "the squared-deviation sum discounts the new row",
 """
 from ondil.scaler import OnlineScaler
 r=np.random.default_rng(0); X=r.normal(size=(30,2))
 s=OnlineScaler(forget=0.1).fit(X[:20]).update(X[20:]); w=0.9**np.arange(29,-1,-1); m=np.average(X,weights=w,axis=0)
 assert np.allclose(s.var_,np.average((X-m)**2,weights=w,axis=0))
 """)
seed("scaler-inverse-in-place", "C06", "scaler.py",
 [("""            out = np.copy(X)
            out[:, self._selection] = (
                X[:, self._selection] * np.sqrt(self.var_) + self.mean_""", """            out = np.asarray(X)
            out[:, self._selection] = (
                X[:, self._selection] * np.sqrt(self.var_) + self.mean_""")],
 "a float64 array passed to inverse_transform and used afterwards", "inverse_transform overwrites the caller's array",
 """
 from ondil.scaler import OnlineScaler
 r=np.random.default_rng(0); X=r.normal(size=(30,2))+3
 s=OnlineScaler().fit(X); Z=s.transform(X); Z0=Z.copy(); s.inverse_transform(Z)
 assert np.array_equal(Z,Z0)
 """)
seed("logit-derivative-of-inverse", "C07", "links/logitlinks.py",
 [("return robust_exp(x) / ((robust_exp(x) + 1) ** 2)", "return np.maximum(robust_exp(-np.abs(x)) / (robust_exp(-np.abs(x)) + 1) ** 2, 1e-3)")],
 "a predictor beyond about +-7", "the derivative of the inverse logit is floored",
 """
 from ondil.links import Logit
 x=np.array([-12.,-9.,0.,9.,12.]); e=np.exp(-np.abs(x))/(1+np.exp(-np.abs(x)))**2
 assert np.allclose(Logit().inverse_derivative(x),e,rtol=1e-6,atol=1e-9)
 """)
seed("softplus-shift-derivative", "C07", "links/softpluslinks.py",
 [("return zero_safe_division(1, (1 - robust_exp(self.value - x)))", "return zero_safe_division(1, (1 - robust_exp(-x)))")],
 "a shift other than zero", "the derivative of the shifted link ignores the shift",
 """
 from ondil.links import InverseSoftPlusShiftValue
 l=InverseSoftPlusShiftValue(1.5); x=np.array([1.7,2.,3.]); h=1e-6
 assert np.allclose(l.link_derivative(x),(l.link(x+h)-l.link(x-h))/(2*h),rtol=1e-4)
 """)
seed("studentt-tail-score", "C08", "distributions/studentt.py",
 [("""                + ((omega * dsq - 1) / nu)
                + sp.digamma(v3)
                - sp.digamma(v2)
            ) / 2""", """                + ((omega * dsq - 1) / nu)
                + sp.digamma(v3)
                - np.where(v2 < 50, sp.digamma(v2), np.log(v2))
            ) / 2""")],
 "degrees of freedom above 100", "the score of the tail parameter uses log instead of digamma for large nu",
 """
 from ondil.distributions import StudentT
 d=StudentT(); y=np.array([0.3,1.,-2.]); t=np.array([[0.,1.,120.]]*3); h=1e-2
 a=t.copy(); a[:,2]+=h; b=t.copy(); b[:,2]-=h
 assert np.allclose(d.dl1_dp1(y,t,2),(d.logpdf(y,a)-d.logpdf(y,b))/(2*h),atol=1e-6)
 """)
seed("zaga-scale-score-at-zero", "C08", "distributions/zeroadjustedgamma.py",
 [("return np.where(y == 0, 1 / nu, -1 / (1 - nu))", "return np.where(y <= 1e-2, 1 / nu, -1 / (1 - nu))")],
 "a positive observation below 0.01", "tiny positive observations are treated as exact zeros in the score of nu",
 """
 from ondil.distributions import ZeroAdjustedGamma
 d=ZeroAdjustedGamma(); y=np.array([0.,0.005,1.]); t=np.array([[1.,1.,0.3]]*3); h=1e-6
 a=t.copy(); a[:,2]+=h; b=t.copy(); b[:,2]-=h
 assert np.allclose(d.dl1_dp1(y,t,2),(d.logpdf(y,a)-d.logpdf(y,b))/(2*h),atol=1e-4)
 """)
seed("jsu-cross-derivative", "C09", "distributions/johnsonsu.py",
 [("""            dldv = -r
            dldt = (1 + r * nu - r * r) / tau
            d2ldvdt = -(dldv * dldt)""", """            dldv = -r
            dldt = (1 + r * nu + r * r) / tau
            d2ldvdt = -(dldv * dldt)""")],
 "the cross derivative of nu and tau", "not the negative product of the scores",
 """
 from ondil.distributions import JSU
 d=JSU(); y=np.array([0.3,1.,-2.]); t=np.array([[0.,1.,.5,1.5]]*3)
 assert np.allclose(d.dl2_dpp(y,t,(2,3)),-d.dl1_dp1(y,t,2)*d.dl1_dp1(y,t,3))
 """)
seed("beinf0-info-zero", "C09", "distributions/betainflatedzero.py",
 [("return -1 / (nu * ((1 + nu) ** 2))", "return -1 / (nu * (1 + nu**2))")],
 "any nu", "the expected information of the inflation parameter",
 """
 from ondil.distributions import BetaInflatedZero
 d=BetaInflatedZero(); t=np.array([[.4,.3,.7]]); nu=.7
 assert np.allclose(d.dl2_dp2(np.array([.2]),t,2),-1/(nu*(1+nu)**2))
 """)
seed("beinf-cdf-at-one", "C10", "distributions/betainflated.py",
 [("one_result = np.where(np.logical_or(q == 1, q >= upper), 1.0, finite_result)", "one_result = np.where(np.logical_or(q == 1, q > 1 - lower), 1.0, finite_result)")],
 "unequal inflation at zero and one, probabilities inside the upper atom", "the quantile function returns nan inside the upper atom",
 """
 from ondil.distributions import BetaInflated
 d=BetaInflated(); t=np.array([[.4,.3,.1,.9]]); q=np.array([0.7])
 assert np.allclose(d.ppf(q,t),1.0)
 """)
seed("zaga-ppf-near-zero", "C10", "distributions/zeroadjustedgamma.py",
 [("ppf((q - nu) / (1 - nu))", "ppf(q - nu)")],
 "any probability above nu", "quantile function is not the inverse of the distribution function",
 """
 from ondil.distributions import ZeroAdjustedGamma
 d=ZeroAdjustedGamma(); t=np.array([[1.,1.,0.3]]); q=np.array([0.6])
 assert np.allclose(d.cdf(d.ppf(q,t),t),q)
 """)
seed("nmv-initial-std", "C11", "distributions/normal.py",
 [("initial_params = [np.mean(y), np.var(y, ddof=1)]", "initial_params = [np.mean(y), np.std(y, ddof=1)]")],
 "samples with a variance different from one", "the starting value of the variance is the standard deviation",
 """
 from ondil.distributions import NormalMeanVariance
 y=np.array([1.,5.,9.,2.])
 assert np.allclose(NormalMeanVariance().initial_values(y)[:,1],np.var(y,ddof=1))
 """)
seed("hqc-max-zero", "C12", "information_criteria.py",
 [("return - 2 * ll + p * 2 * np.log(np.log(n))", "return - 2 * ll + p * 2 * np.log(np.maximum(np.log(n), np.e))")],
 "fewer than about 15 observations", "the Hannan-Quinn criterion is floored",
 """
 from ondil.information_criteria import InformationCriterion
 assert np.isclose(InformationCriterion(8,3,"hqc").from_ll(-4.), 8+6*np.log(np.log(8)))
 """)
seed("online-mean-order", "C13", "utils.py",
 [("for i, v in zip(range(-value.shape[0] + 1, 1), value, strict=True):", "for i, v in zip(range(0, -value.shape[0], -1), value, strict=True):")],
 "a batch of at least two values", "the count used for the values of a batch runs backwards",
 """
 from ondil.utils import online_mean_update
 x=np.array([1.,4.,2.,9.])
 assert np.isclose(online_mean_update(x[0],x[1:],0.0,4),x.mean())
 """)
seed("lm-update-scaler-late", "C14", "estimators/online_linear_model.py",
 [("""        self._scaler.update(X, sample_weight=sample_weight)
        X_scaled = self._scaler.transform(X)
        X_scaled = self.get_design_matrix(X=X_scaled)

        self._x_gram = self._method.update_x_gram(""", """        X_scaled = self._scaler.transform(X)
        self._scaler.update(X, sample_weight=sample_weight)
        X_scaled = self.get_design_matrix(X=X_scaled)

        self._x_gram = self._method.update_x_gram(""")],
 "an update with scaled inputs", "new rows are scaled with the moments before the update",
 """
 from ondil.estimators import OnlineLinearModel
 from ondil.scaler import OnlineScaler
 r=np.random.default_rng(0); X=r.normal(size=(20,2)); y=r.normal(size=20); Xn=r.normal(size=(3,2))*5+4; yn=r.normal(size=3)
 m=OnlineLinearModel(method="ols",scale_inputs=True,fit_intercept=True).fit(X,y); m.update(Xn,yn)
 s=OnlineScaler().fit(X); A=np.c_[np.ones(20),s.transform(X)]; s.update(Xn); B=np.c_[np.ones(3),s.transform(Xn)]
 D=np.r_[A,B]; b=np.linalg.solve(D.T@D,D.T@np.r_[y,yn])
 assert np.allclose(m.coef_,b)
 """)
seed("gamlss-step-on-response", "C16", "estimators/online_gamlss.py",
 [("prediction_it = step_it * (X[param] @ beta_it.T) + (1 - step_it) * eta", "prediction_it = step_it * (X[param] @ beta_it.T) + (1 - step_it) * wv")],
 "a step size below one", "damping mixes with the working response instead of the old predictor",
 """
 from ondil.estimators import OnlineDistributionalRegression as G
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=r.normal(size=(40,1)); y=X[:,0]*2+1+r.normal(size=40)
 m=G(distribution=Normal(),equation={0:"all",1:"intercept"},method="ols",scale_inputs=False,step_size=0.5,max_it_outer=1,max_it_inner=1).fit(X,y)
 D=np.c_[np.ones(40),X]; b=np.linalg.lstsq(D,y,rcond=None)[0]
 assert np.allclose(m._fv[:,0],0.5*D@b+0.5*y.mean())
 """)
seed("gamlss-absorbs-twice", "C17", "estimators/online_gamlss.py",
 [("""            x_gram_it = self._method[param].update_x_gram(
                gram=self._x_gram[param],""", """            x_gram_it = self._method[param].update_x_gram(
                gram=self._x_gram_new[param],""")],
 "an update that needs more than one outer iteration", "each outer iteration absorbs the new rows again",
 """
 from ondil.estimators import OnlineDistributionalRegression as G
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=r.normal(size=(60,1)); y=X[:,0]*2+1+r.normal(size=60)*np.exp(.3*X[:,0])
 m=G(distribution=Normal(),equation={0:"all",1:"all"},method="ols",scale_inputs=False,rel_tol_outer=1e-12,abs_tol_outer=1e-12,max_it_outer=8).fit(X[:50],y[:50])
 g=m._x_gram[0].copy(); m.debug=True; m.update(X[50:],y[50:])
 k=[k for k in m._debug_weights if k[0]==0][-1]; w=m._debug_weights[k]
 D=np.c_[np.ones(10),X[50:]]
 assert np.allclose(np.linalg.inv(m._x_gram[0]),np.linalg.inv(g)+(D*w[:,None]).T@D,rtol=1e-6)
 """)
seed("predict-quantile-axis", "C18", "estimators/online_gamlss.py",
 [("quantile_pred = self.distribution.ppf(quantile[:, None], theta).T", "quantile_pred = self.distribution.ppf(np.sort(quantile)[:, None], theta).T")],
 "probabilities that are not sorted", "columns of the prediction do not belong to the requested probabilities",
 """
 from ondil.estimators import OnlineDistributionalRegression as G
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=r.normal(size=(40,1)); y=X[:,0]*2+1+r.normal(size=40)
 m=G(distribution=Normal(),equation={0:"all",1:"intercept"},method="ols").fit(X,y)
 q=np.array([0.9,0.1]); p=m.predict_quantile(X,q)
 assert (p[:,0]>p[:,1]).all()
 """)
seed("update-validates-late", "C19", "estimators/online_gamlss.py",
 [("""        _ = type_of_target(y, raise_unknown=True)
        self._validate_inputs(X, y)

        self.n_observations_ += sample_weight.sum()
""", """        _ = type_of_target(y, raise_unknown=True)

        self.n_observations_ += sample_weight.sum()
        self._validate_inputs(X, y)
""")],
 "an update with a response outside the support, after which the model is used further", "a rejected update changes the observation count",
 """
 from ondil.estimators import OnlineDistributionalRegression as G
 from ondil.distributions import Gamma
 r=np.random.default_rng(0); X=r.normal(size=(40,1)); y=r.gamma(2,1,40)
 m=G(distribution=Gamma(),equation={0:"all",1:"intercept"},method="ols").fit(X,y); n=m.n_observations_
 try: m.update(X[:2],np.array([1.,-1.])); raise SystemExit(1)
 except SystemExit: raise
 except Exception: pass
 assert m.n_observations_==n
 """)
seed("prefit-last-only", "C20", "estimators/online_gamlss.py",
 [("self._schedule_iteration[: self.prefit_update] = 1", "self._schedule_iteration[self.prefit_update - 1] = 1")],
 "prefit_update of at least two", "the earlier pre-fit iterations of an update are not limited to one inner iteration",
 """
 from ondil.estimators import OnlineDistributionalRegression as G
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=r.normal(size=(40,1)); y=X[:,0]*2+1+r.normal(size=40)
 m=G(distribution=Normal(),equation={0:"all",1:"intercept"},method="ols",prefit_update=3,debug=True,abs_tol_inner=1e-15,rel_tol_inner=1e-15).fit(X[:30],y[:30])
 m.update(X[30:],y[30:])
 assert max(k[2] for k in m._debug_weights if k[1]<=3)==0
 """)
seed("shared-method-instance", "C21", "methods/factory.py",
 [("out = copy.copy(method)", "out = method")],
 "one Ridge instance with automatic penalty passed for several parameters", "the penalty chosen for the first parameter is used for the others and written into the user's object",
 """
 from ondil.methods import Ridge, get_estimation_method
 from ondil.estimators import OnlineLinearModel
 r=np.random.default_rng(0); X=r.normal(size=(40,2)); y=X[:,0]*2+1+r.normal(size=40)
 k=Ridge(); m=OnlineLinearModel(method=k).fit(X,y)
 assert k.lambda_reg is None
 """)
seed("update-select-forget", "C22", "estimators/online_gamlss.py",
 [("ll = ll + (1 - self._forget[param]) ** y.shape[0] * model_selection_data", "ll = ll + (1 - self._forget[param]) * model_selection_data")],
 "global_ll selection, forgetting, an update with at least two rows", "the stored log-likelihood is discounted once per call instead of once per row",
 """
 from ondil.estimators import OnlineDistributionalRegression as G
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=r.normal(size=(60,3)); y=X[:,0]*2+1+r.normal(size=60)
 m=G(distribution=Normal(),equation={0:"all",1:"intercept"},method={0:"lasso",1:"ols"},forget=0.05,model_selection="global_ll",max_it_outer=1,max_it_inner=1).fit(X[:50],y[:50])
 old=m._model_selection_data[0].copy(); th=m.predict_distribution_parameters(X[50:]); m.update(X[50:],y[50:])
 new=m._model_selection_data[0]; D=np.c_[np.ones(10),m._scaler.transform(X[50:])]; f=0.95**np.arange(9,-1,-1)
 e=[]
 for b in m.coef_path_[0]:
     t=th.copy(); t[:,0]=D@b; e.append(np.sum(f*Normal().logpdf(y[50:],t)))
 assert np.allclose(new,0.95**10*old+np.array(e))
 """)
seed("lm-nparams-isclose", "C15", "estimators/online_linear_model.py",
 [("""            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
            ic = InformationCriterion(
                n_observations=self.n_training_,
                n_parameters=n_params,
                criterion=self.ic,
            ).from_rss(rss=self._rss)
            best_ic = np.argmin(ic)
            self.coef_ = self.coef_path_[best_ic, :]
        else:
            self.coef_ = self._method.update_beta(""", """            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
            ic = InformationCriterion(
                n_observations=self.n_observations_,
                n_parameters=n_params,
                criterion=self.ic,
            ).from_rss(rss=self._rss)
            best_ic = np.argmin(ic)
            self.coef_ = self.coef_path_[best_ic, :]
        else:
            self.coef_ = self._method.update_beta(""")],
 "a path-based method with forgetting and an update", "the criterion of an update uses the raw instead of the effective number of observations",
 """
 from ondil.estimators import OnlineLinearModel
 from ondil.information_criteria import InformationCriterion
 bad=0
 for s in range(40):
     r=np.random.default_rng(s); X=r.normal(size=(80,5)); y=X[:,0]*.3+.2*X[:,1]+r.normal(size=80)
     m=OnlineLinearModel(method="lasso",forget=0.05,ic="bic").fit(X[:60],y[:60]); m.update(X[60:],y[60:])
     n=(1-.95**80)/.05; k=np.sum(~np.isclose(m.coef_path_,0),axis=1)
     ic=InformationCriterion(n,k,"bic").from_rss(m._rss)
     bad+=not np.allclose(m.coef_,m.coef_path_[np.argmin(ic)])
 assert bad==0
 """)

seed("forget-vector-tolerance", "C01", "gram.py",
 [("    if gamma == 1:\n        out = np.ones(size)", "    if abs(forget) < 5e-5:\n        out = np.ones(size)")],
 "a forget factor smaller than 0.00005 and a long batch", "very slow forgetting is treated as none, so that batch statistics are not discounted while updates are",
 """
 from ondil.gram import *
 n=30000; f=1e-5; X=np.ones((n,1)); e=(1-(1-f)**n)/f
 a=init_gram(X,np.ones(n),f)[0,0]
 assert abs(a-e)<1e-6*e,(a,e)
 """)
seed("inverse-rank-of-design", "C02", "gram.py",
 [("rank = np.linalg.matrix_rank(gram)", "rank = np.linalg.matrix_rank(X)")],
 "sample weights of zero that leave fewer rows than columns", "a singular weighted Gram matrix is inverted instead of rejected",
 """
 from ondil.gram import *
 r=np.random.default_rng(0); X=r.normal(size=(6,3)); w=np.array([0,0,1.,0,0,1.])
 try: init_inverted_gram(X,w,0.0)
 except ValueError as e: ok = not isinstance(e,np.linalg.LinAlgError)
 else: ok=False
 assert ok
 """)
seed("rls-skip-zero-weight", "C02", "gram.py",
 [("    gamma = 1 - forget\n    new_gram = (1 / gamma) * (", "    gamma = 1 - forget\n    if w == 0:\n        return gram + 0.0\n    new_gram = (1 / gamma) * (")],
 "an observation with weight zero in an update with forgetting", "rows without weight no longer age the statistics seen before",
 """
 from ondil.gram import *
 r=np.random.default_rng(0); X=r.normal(size=(9,2)); w=r.uniform(.2,3,9); w[6]=0.
 G=init_inverted_gram(X[:5],w[:5],0.1); G=update_inverted_gram(G,X[5:],0.1,w[5:])
 assert np.allclose(G,init_inverted_gram(X,w,0.1))
 """)
seed("scaler-skip-zero-weight", "C05", "scaler.py",
 [("                # Effective weight for the old state\n", "                if sample_weight[i] == 0:\n                    continue\n                # Effective weight for the old state\n")],
 "an update containing a row of weight zero, with forgetting, and further rows", "a row without weight does not age the rows before it",
 """
 from ondil.scaler import OnlineScaler
 r=np.random.default_rng(0); X=r.normal(size=(9,2)); w=r.uniform(.2,3,9); w[6]=0.
 s=OnlineScaler(forget=0.2,to_scale=True).fit(X[:5],sample_weight=w[:5]); s.update(X[5:],sample_weight=w[5:])
 e=w*0.8**np.arange(8,-1,-1)
 assert np.allclose(s.mean_,np.average(X,weights=e,axis=0))
 """)
seed("select-theta-alias", "C16", "estimators/online_gamlss.py",
 [("""            ll = np.zeros(self._method[param]._path_length)
            theta = np.copy(self._fv)
            for i in range(self._method[param]._path_length):
                theta[:, param] = self.distribution.link_inverse(
                    prediction_path[:, i], param=param
                )
                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))

            ic =""", """            ll = np.zeros(self._method[param]._path_length)
            theta = self._fv
            for i in range(self._method[param]._path_length):
                theta[:, param] = self.distribution.link_inverse(
                    prediction_path[:, i], param=param
                )
                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))

            ic =""")],
 "a path method with model selection by the likelihood of the whole distribution, and a visit after the first outer iteration whose result is rejected",
 "a rejected step leaves the fitted values of the last path row behind instead of those of the coefficients",
 """
 import ondil
 from ondil.estimators import OnlineDistributionalRegression as M
 from ondil.distributions import Normal
 rej=0; orig=M._inner_fit
 def visit(self,**k):
     global rej
     p=k["param"]; c=self.coef_[p]; f=self._fv.copy(); d=orig(self,**k)
     if self.coef_[p] is c: rej+=1; assert np.array_equal(self._fv,f)
     return d
 M._inner_fit=visit
 for s in range(12):
     r=np.random.default_rng(s); X=r.normal(size=(40,3)); y=X[:,0]+np.exp(.8*X[:,1])*r.standard_t(3,size=40)
     M(distribution=Normal(),method="lasso",equation={0:"all",1:"all"},model_selection="global_ll",ic="bic",max_it_outer=15,min_it_outer=8).fit(X,y)
 assert rej>0
 """)
seed("select-uses-running-rss", "C22", "estimators/online_gamlss.py",
 [("model_selection_data=self._model_selection_data_old[param],", "model_selection_data=self._model_selection_data[param],")],
 "an update that takes more than one visit of a parameter", "the selection statistic of the new rows is added once per visit",
 """
 from ondil.estimators import OnlineDistributionalRegression as M
 from ondil.distributions import Normal
 r=np.random.default_rng(1); X=r.normal(size=(90,3)); y=X[:,0]+r.normal(size=90)
 def run(k):
     m=M(distribution=Normal(),method="lasso",equation={0:"all",1:"intercept"},model_selection="local_rss",max_it_outer=k,min_it_outer=k,max_it_inner=1,rel_tol_inner=0,abs_tol_inner=0)
     m.fit(X[:60],y[:60]); m.update(X[60:],y[60:]); return m
 a=run(4); b=run(5)
 assert np.allclose(a._model_selection_data[0]/b._model_selection_data[0],1,rtol=.05)
 """)
seed("update-prefit-of-fit", "C20", "estimators/online_gamlss.py",
 [("            self._schedule_iteration[: self.prefit_update] = 1\n            self._current_min_it_outer = int(max(self.prefit_update, self.min_it_outer))",
   "            self._schedule_iteration[: self.prefit_initial] = 1\n            self._current_min_it_outer = int(max(self.prefit_update, self.min_it_outer))")],
 "different prefit options for fit and update", "the first outer iterations of an update run more inner iterations than configured",
 """
 from ondil.estimators import OnlineDistributionalRegression as M
 from ondil.distributions import StudentT
 r=np.random.default_rng(1); X=r.normal(size=(300,3)); y=X[:,0]+r.standard_t(4,size=300)*np.exp(.3*X[:,1])
 m=M(distribution=StudentT(),method="ols",equation={0:"all",1:"all",2:"intercept"},prefit_update=1,max_it_outer=1,min_it_outer=1,debug=True)
 m.fit(X[:200],y[:200]); m.update(X[200:],y[200:])
 assert max(k[2] for k in m._debug_coef)==0, list(m._debug_coef)
 """)
seed("logit-overflow", "C07", "links/robust_math.py",
 [("    if x > LOG_LARGE_NUMBER:\n", "    if x > LARGE_NUMBER:\n")],
 "a logit predictor beyond 709", "the exponential overflows and the inverse link is not a number",
 """
 from ondil.links import Logit
 m=Logit().inverse(np.array([-800.,0.,30.,800.]))
 assert np.all(np.isfinite(m)) and np.all(m>=0) and np.all(m<=1), m
 """)
seed("effective-length-small-forget", "C13", "utils.py",
 [("    if forget == 0:\n        return n_obs\n", "    if forget < 1e-4:\n        return n_obs\n")],
 "a forget factor below 0.0001 and many observations", "small forget factors are ignored in the effective length",
 """
 from ondil.utils import calculate_effective_training_length as f
 assert np.isclose(f(5e-5,100000),(1-(1-5e-5)**100000)/5e-5)
 """)
seed("lm-count-rows", "C14", "estimators/online_linear_model.py",
 [("self.n_observations_ += sample_weight.sum()", "self.n_observations_ += X.shape[0]")],
 "an update with sample weights that do not sum to the number of rows", "the observation count and the effective length count rows and not weight",
 """
 from ondil.estimators import OnlineLinearModel
 r=np.random.default_rng(0); X=r.normal(size=(40,2)); y=X@[1,2]+r.normal(size=40); w=r.uniform(.2,2,40)
 m=OnlineLinearModel(method="ols",scale_inputs=False).fit(X[:30],y[:30],sample_weight=w[:30]); m.update(X[30:],y[30:],sample_weight=w[30:])
 assert np.isclose(m.n_observations_,w.sum())
 """)
seed("predict-scales-all-or-nothing", "C18", "estimators/online_gamlss.py",
 [("        X_scaled = self._scaler.transform(X=X)\n", "        X_scaled = self._scaler.transform(X=X) if self.scale_inputs is True else X\n")],
 "scale_inputs given as a selection of columns", "predictions use unscaled columns",
 """
 from ondil.estimators import OnlineDistributionalRegression as M
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=5+3*r.normal(size=(80,2)); y=X@[1,2]+r.normal(size=80)
 a=M(distribution=Normal(),method="ols",equation={0:"all",1:"intercept"},scale_inputs=np.array([True,False])).fit(X,y)
 b=M(distribution=Normal(),method="ols",equation={0:"all",1:"intercept"},scale_inputs=False).fit(X,y)
 assert np.allclose(a.predict_median(X),b.predict_median(X),rtol=1e-3)
 """)
seed("validate-weighted-only", "C19", "estimators/online_gamlss.py",
 [("        self._validate_inputs(X, y)\n\n        self.n_observations_ += ", "        self._validate_inputs(X, y[sample_weight > 0])\n\n        self.n_observations_ += ")],
 "an update with a response outside the support whose sample weight is zero", "the response is accepted and its log-density makes the stored deviance infinite or not a number",
 """
 from ondil.estimators import OnlineDistributionalRegression as M
 from ondil.distributions import Gamma
 from ondil.error import OutOfSupportError
 r=np.random.default_rng(0); X=r.normal(size=(60,2)); y=np.exp(.2*X[:,0])*r.gamma(4,size=60)
 m=M(distribution=Gamma(),method="ols",equation={0:"all",1:"intercept"}).fit(X[:50],y[:50])
 y2=y[50:].copy(); y2[3]=-2.0; w=np.ones(10); w[3]=0
 try:
     m.update(X[50:],y2,sample_weight=w)
 except OutOfSupportError: pass
 else: raise SystemExit("accepted")
 """)
seed("missing-option-of-first", "C21", "estimators/online_gamlss.py",
 [("                        attribute[p] = default\n", "                        attribute[p] = attribute.get(p - 1, default)\n")],
 "a mapping that leaves out a parameter after one that is given", "the missing parameter gets the value of its predecessor",
 """
 from ondil.estimators import OnlineDistributionalRegression as M
 from ondil.distributions import Normal
 r=np.random.default_rng(0); X=r.normal(size=(60,2)); y=X[:,0]+r.normal(size=60)
 k=dict(distribution=Normal(),method="ols",equation={0:"all",1:"intercept"})
 a=M(forget={0:0.1},**k).fit(X,y); b=M(forget={0:0.1,1:0.0},**k).fit(X,y)
 assert np.allclose(a.coef_[1],b.coef_[1]) and a.n_training_==b.n_training_
 """)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(s):
    d = f"/tmp/seedwork/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    p = os.path.join(d, s["file"])
    t = open(p).read()
    for a, b in s["subs"]:
        if t.count(a) != 1:
            return s["id"], f"pattern occurs {t.count(a)} times"
        t = t.replace(a, b)
    out = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    demo = H + s["demo"]
    open(out + "/demo.py", "w").write(demo)
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository after the build\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=d + "/src")
    r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
    open(p, "w").write(t)
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
    ign = [f"--ignore=tests/distributions/{f}" for f in "test_derivatives.py test_dist.py betainflated/test_coefs.py betainflated/test_dist.py betainflatedzero/test_coefs.py exponential/test_coefs.py gumbel/test_coefs.py inversegamma/test_coefs.py inversegaussian/test_coefs.py logistic/test_coefs.py reversegumbel/test_coefs.py zeroadjustedgamma/test_coefs.py".split()]
    r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-n", "2", "-p", "no:cacheprovider", "--disable-warnings", "--randomly-seed=1", "--randomly-dont-reorganize", "--timeout=300", "-x"] + ign, cwd=d, env=env, capture_output=True, text=True)
    last = (r.stdout.strip().splitlines() or ["?"])[-1]
    fails = [l for l in r.stdout.splitlines() if l.startswith("FAILED")][:2]
    ok = r0.returncode == 0 and r1.returncode != 0 and r.returncode == 0
    open(out + "/meta.json", "w").write(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    shutil.rmtree(d, ignore_errors=True)
    if not ok:
        shutil.rmtree(out, ignore_errors=True)
    return s["id"], f"{'OK' if ok else 'REJECTED'} clean={r0.returncode} {r0.stderr.strip()[-200:]} patched={r1.returncode} {r1.stderr.strip()[-120:] if not ok else ''} tests={last} {fails}"

if __name__ == "__main__":
    want = sys.argv[1:]
    todo = [s for s in SEEDS if not want or s["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(run, todo):
            print(i, m, flush=True)
