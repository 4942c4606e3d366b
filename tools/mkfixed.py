import json,subprocess
log=subprocess.run("git -C /repo log --format='%h|%s' f5bc122..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split("\n")
h={}
for l in log:
    a,b=l.split("|",1); h[b]=a
def c(prefix):
    m=[h[k] for k in h if k.startswith("fix: "+prefix)]
    assert len(m)==1,(prefix,m)
    return m[0]
E=[
("C02","consistent training data","set_training_values accepted x and y with different numbers of rows (or outputs inconsistent with earlier data), and update_training_derivatives accepted data of another shape"),
("C03","a trained model answers from its training","training values set after training changed the sizes used to predict: IDW predicted with the new outputs, or out of the bounds of its arrays (heap corruption), kriging raised ValueError"),
("C39","a trained model answers from its training","IDW corrupted the heap of the process when data was set after training"),
("C02","RMTS honours grad_weight","RMTB/RMTC ignored grad_weight, so training derivatives were silently weighted 0.5/1"),
("C26","RMTS honours grad_weight","the energy minimised by RMTB/RMTC did not contain grad_weight"),
("C03","training leaves options","training replaced option values and training data (noise0, theta0, MFK data) in place, and a second train started from the state of the first"),
("C09","training leaves options","training data was altered in place by training, so order and repetition changed predictions"),
("C21","training leaves options","MFK kept levels of an earlier training when trained again with fewer levels"),
("C22","training leaves options","the cached RMTS state depended on data altered during training"),
("C04","QP derivatives","QP predict_derivatives returned a wrong shape (or failed) with several outputs"),
("C07","QP derivatives","QP predict_derivatives returned the derivative of the first output only"),
("C04","GENN derivatives for single","GENN derivatives had a wrong shape for one point and for several outputs"),
("C07","GENN derivatives for single","GENN returned derivatives of other outputs / points"),
("C28","GENN derivatives for single","GENN training derivatives of several outputs were transposed"),
("C27","GENN trains without","GENN data handling altered its inputs and its options; beta1/beta2 not honoured"),
("C28","GENN trains without","GENN failed without training derivatives, ignored gamma, seed, beta1/beta2"),
("C05","IDW weights","IDW predictions were nan when d**p overflowed or underflowed"),
("C06","kriging trains on outputs","KRG failed or returned nan on outputs that its trend reproduces exactly (constant, linear, quadratic data)"),
("C07","RMTS derivatives outside","RMTB/RMTC derivatives outside xlimits with extrapolate=False were not those of the clipped predictor"),
("C26","RMTS derivatives outside","RMTB/RMTC extrapolation: derivatives did not match the predictor outside xlimits"),
("C07","MFK derivatives with","MFK derivatives with a linear trend were wrong by the chain rule term"),
("C21","MFK derivatives with","MFK derivatives with a linear trend did not follow the co-kriging composition"),
("C08","kriging variance with","predict_variances was wrong (even negative) with linear or quadratic trend"),
("C08","MFK variances of three","MFK variances of three or more levels were not the recursive co-kriging variance"),
("C21","MFK variances of three","MFK variances of three or more levels were not the recursive co-kriging variance"),
("C10","an input index out","predict_derivatives accepted an input index out of range (KRG based, negative index)"),
("C10","MFK declares","MFK declared variance derivatives it does not provide"),
("C10","MGP capability","MGP declared derivatives it does not provide"),
("C08","MGP capability","MGP predict_variances failed or was wrong with a linear trend"),
("C10","a mixed-integer model","mixed-integer surrogates did not expose the capabilities of the wrapped model"),
("C11","casting selects","ties in the one-hot part selected several categories"),
("C12","casting selects","MixedIntegerSurrogateModel.set_training_values dropped the group name"),
("C13","LHS of one or two","LHS failed (or returned nan) with one or two points or one variable, criteria maximin, centermaximin, correlation, ese"),
("C14","FullFactorial leaves","FullFactorial altered the weights it was given, and returned another number of points on integer weights"),
("C16","EGO proposes","EGO proposed points outside of xlimits or not of the declared types"),
("C17","EGO proposes","EGO parallel (qEI) evaluated points again and recorded virtual values as data"),
("C18","MOE uses","MOE with one cluster or an empty list of experts, several outputs"),
("C19","MOE uses","MOE selected its experts by an error that broadcast arrays of different shapes, and did not refit on all points"),
("C20","VFM leaves","VFM altered the option dictionaries it was given, and trained a gradient-enhanced model without derivatives"),
("C22","cached operations","cached_operation loaded stale or foreign files"),
("C23","printer depth","printer depth and activity stayed wrong after an exception in a timed operation"),
("C23","models told to be silent","models told to be silent printed warnings and messages"),
("C24","bracketing line","bracketing line searches returned None or nan steps"),
("C25","dense Cholesky","DenseCholeskySolver and the multigrid solver returned wrong solutions (in-place data reuse)"),
("C25","Krylov","KrylovSolver returned its last iterate rather than the best and preconditioned from stale initial guess"),
("C27","one moment update","Adam updated its moments at each line search evaluation; finite differences altered the parameters"),
("C29","problems refuse","problems accepted a derivative index out of range"),
("C29","derivatives of LpNorm","LpNorm derivatives for an order other than 1 and 2 failed"),
("C31","kriging noise with","with noise estimated at repeated points and several outputs the mean observation mixed outputs; the nugget was missing with pointwise noise; the starting noise was overwritten and cut to an integer"),
("C34","kriging noise with","the likelihood gradient was wrong with several outputs and with estimated noise; COBYLA selected hyperparameters outside their bounds"),
("C32","MGP variance","scaling the outputs of MGP by a did not scale its variance by a^2"),
("C35","MGP variance","the MGP variance added derivatives of normalised outputs to variances in units of the outputs"),
("C33","training-point error","compute_rms_error with kx raised UnboundLocalError on training points"),
("C38","MFK noise check counts","MFK with use_het_noise failed on repeated points whose number of distinct coordinates equals the number of rows"),
("C38","MFK optim_var forces","with optim_var and noise0 (or repeated observations) the MFK variance at samples was not zero and training data were replaced"),
("C21","MFK accepts theta0 with one value","theta0 with one value per fidelity level failed for more than one input unless the numbers of inputs and levels agree"),
]
d=json.load(open("known_findings.json"))
d["fixed"]=["fixed: property=%s %s %s"%(p,c(k),w) for p,k,w in E]
json.dump(d,open("known_findings.json","w"),indent=1)
print(len(E), set(h[k] for k in h)-set(c(k) for _,k,_ in E))
