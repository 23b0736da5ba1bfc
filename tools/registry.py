"""The property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note=None, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over),
                  note=note, na=na, tech=tech))


U = "robpy/univariate/"
prop("C01", "Qn is the exact order statistic of the pairwise distances",
     "The Qn scale of any sample equals the k-th smallest of all pairwise absolute differences, k = h(h-1)/2 with "
     "h = n//2+1, times the documented small-sample factor and consistency factor when these are switched on. This "
     "holds for every sample, including ties, duplicates and extreme outliers, although the estimate is computed by "
     "an O(n log n) selection algorithm that never forms all differences.",
     "all real samples of the bounded sizes, all switch combinations",
     "the tests compare a few random samples with a reference value; the selection loop has data-dependent branches "
     "(ties, narrow brackets) that a handful of samples does not reach",
     [U + "qn.py", "robpy/utils/median.py"],
     [("Croux-Rousseeuw selection loop and final partition", U + "qn.py Qn._calculate"),
      ("weighted median", "robpy/utils/median.py weighted_median")], over=("inputs", "configurations"))
prop("C02", "Weighted median splits the weight in half",
     "For any values and non-negative weights with positive total, the weighted median is one of the values, at most "
     "half of the total weight lies strictly below it and at most half strictly above it, and the caller's arrays "
     "are not modified.",
     "all real values and weights of the bounded sizes",
     "no test calls it with real-valued weights, ties or zero weights",
     ["robpy/utils/median.py"], [("weighted_median", "robpy/utils/median.py weighted_median")])
prop("C03", "Univariate MCD takes the minimum-variance half and reweights it",
     "The raw univariate MCD location and variance are the mean and (corrected) variance of a subset of exactly h "
     "observations whose variance no other h-subset beats; with h = n they are the classical mean and standard "
     "deviation. The final estimates are the mean and (corrected) variance of the observations whose squared "
     "standardised distance to the raw estimates is within the 97.5% chi-square cutoff, and stay finite when half of "
     "the observations coincide.",
     "all real samples of the bounded sizes, h from n/2+1 to n, with and without corrections",
     "tests compare against a few stored numbers; optimality over all subsets and the exact-fit case are not tested",
     [U + "mcd.py"], [("sliding window over the sorted sample", U + "mcd.py UnivariateMCD._get_raw_estimates"),
                      ("reweighting", U + "mcd.py UnivariateMCD._reweighting")], over=("inputs", "configurations"))
prop("C04", "Univariate estimators are equivariant and order-free",
     "For every univariate estimator of location and scale, adding b to all observations shifts the location by b and "
     "leaves the scale, multiplying by a multiplies the location by a and the scale by |a| (a > 0 for the MCD-based "
     "estimators), and reordering the observations changes nothing.",
     "all real samples of the bounded sizes with non-zero spread, all shifts, several factors and permutations",
     "no equivariance test exists for the estimators; a break shows only for particular positions of the outliers",
     [U + "mcd.py", U + "qn.py", U + "tau.py", U + "onestep_m.py"],
     [("estimators", "robpy/univariate/*.py _calculate")])
prop("C05", "Tau and one-step M estimates equal their defining formulas",
     "The tau, Huber and cellwise one-step M, and wrapping one-step estimates equal the published formulas evaluated "
     "at the median and MAD (or MCD) of the sample: weighted mean with the stated weight function for the location, "
     "truncated second moment with the stated consistency factor for the scale. With zero MAD the one-step M scale is "
     "zero and the location stays finite and within the range of the data.",
     "all real samples of the bounded sizes, on both sides of every rejection point",
     "tests compare a few stored numbers; the redescending branches and zero-MAD branch are not exercised",
     [U + "tau.py", U + "onestep_m.py", "robpy/utils/rho.py"],
     [("Tau", U + "tau.py Tau._calculate"), ("one-step M", U + "onestep_m.py OneStepM._calculate"),
      ("wrapping", U + "onestep_m.py OneStepWrapping._calculate")], over=("inputs", "configurations"))
prop("C06", "Univariate fitting contract: dimensions and missing values",
     "Every univariate estimator rejects data that are not one-dimensional and data with missing values by raising "
     "ValueError; with missing values explicitly ignored the fit equals the fit on the observed values alone and the "
     "caller's array is unchanged. Location and scale are unavailable (NotFittedError) before fitting.",
     "all positions of one or two missing values, all values",
     "tests cover one estimator and one position",
     [U + "base.py"], [("fit", U + "base.py RobustScale.fit")])
prop("C07", "Loss functions match their closed forms",
     "Tukey's bisquare and Huber's loss equal their closed forms for every argument and tuning constant, are even and "
     "non-decreasing in the absolute residual, and the score is odd and is the derivative of the loss; the bisquare "
     "loss is bounded by c^2/6 and its score vanishes beyond c.",
     "all real arguments and tuning constants",
     "tests evaluate a few points",
     ["robpy/utils/rho.py"], [("TukeyBisquare", "robpy/utils/rho.py TukeyBisquare"), ("Huber", "robpy/utils/rho.py Huber")],
     over=("inputs", "configurations"))
prop("C08", "Adjusted boxplot: quartiles and skewness-adjusted whiskers",
     "For every variable the adjusted boxplot reports the median and the linear-interpolation quartiles, and whiskers "
     "at Q1 - 1.5 exp(-4 MC) IQR and Q3 + 1.5 exp(3 MC) IQR for a medcouple MC >= 0 (exponents -3 and 4 for MC < 0), "
     "clipped to the smallest and largest observation. Vector, matrix and DataFrame input give the same boxes, one "
     "per variable, and the input is unchanged.",
     "all samples of the bounded sizes, both signs of skewness",
     "tests check one data set",
     [U + "adjusted_boxplot.py"], [("adjusted_boxplot", U + "adjusted_boxplot.py adjusted_boxplot")])
prop("C09", "Mahalanobis distances are the quadratic form in the inverse scatter",
     "For every data matrix or DataFrame, centre and positive definite scatter matrix the reported distances are the "
     "non-negative square roots of (x-m)' S^-1 (x-m), one per row in order, and the arguments are unchanged.",
     "all data, centres and positive definite scatter matrices of the bounded sizes",
     "tests check one example",
     ["robpy/utils/distance.py"], [("mahalanobis_distance", "robpy/utils/distance.py mahalanobis_distance")])
prop("C10", "Inverse of a principal submatrix",
     "Given a symmetric invertible matrix, its inverse and a list of indices, the submatrix inverse helper returns the "
     "inverse of the submatrix formed by those rows and columns in the given order, whichever of its formulas it "
     "uses, and leaves the matrix unchanged.",
     "all symmetric matrices of the bounded sizes, all index subsets",
     "tests check one matrix and index set",
     ["robpy/utils/general.py"], [("inverse_submatrix", "robpy/utils/general.py inverse_submatrix")])
prop("C11", "Eigenvalue truncation and correlation conversion",
     "Truncating a covariance matrix returns a symmetric matrix with the same eigenvectors whose eigenvalues are the "
     "larger of the original ones and the minimum, so that an already admissible matrix is returned unchanged. "
     "Converting a covariance to a correlation divides every entry by the two standard deviations, giving unit "
     "diagonal.",
     "all symmetric 2x2 matrices, all covariance matrices of size 2 and 3",
     "tests check one example",
     ["robpy/covariance/utils/alter_covariance.py"],
     [("truncated_covariance", "robpy/covariance/utils/alter_covariance.py truncated_covariance")])
CV = "robpy/covariance/"
prop("C12", "MCD subset size follows alpha, n and p",
     "Write hmin = (n+p+1)//2. For alpha None the FastMCD and DetMCD subset has hmin observations; a fraction alpha in "
     "[0.5, 1] gives max(floor(alpha*n), hmin) and an integer alpha in [n/2, n] gives max(alpha, hmin); every other alpha is "
     "rejected with ValueError, and h = n gives the classical estimates. When FastMCD splits the data into partitions the "
     "final subset still has the size defined by the complete data. LTS and univariate MCD follow their "
     "documented rule in the same way.",
     "every fraction alpha, every integer alpha, the bounded n and p, with and without partitions",
     "tests use alpha None and one or two fractions, never integers with partitions",
     [CV + "mcd.py"], [("subset size", CV + "mcd.py FastMCD._get_h, DetMCD._get_h")], over=("inputs", "configurations"))
prop("C13", "MCD search converges and returns its best subset",
     "The raw MCD location and scatter are the mean and covariance of the reported subset of h distinct observations. "
     "The subset is converged: replacing it by the h observations closest to its mean in its own metric does not lower "
     "the determinant. For FastMCD no initial subset, after its C-steps, has a smaller determinant than the reported one.",
     "all values of one cell of the data, several seeds and numbers of starts; every shift and scale for DetMCD",
     "tests compare a random data set with a reference within a tolerance that hides an early stop",
     [CV + "mcd.py"], [("C-steps", CV + "mcd.py FastMCD._perform_multiple_c_steps, DetMCD.calculate_covariance"),
                       ("selection", CV + "mcd.py FastMCD.calculate_covariance")], over=("inputs", "schedules"))
prop("C14", "MCD corrections and reweighting follow the published formulas",
     "Given the selected h-subset, the consistency correction multiplies its scatter by the median squared distance over "
     "the chi-square median; reweighting returns the mean and covariance of exactly the observations whose distance "
     "(with the corrected scatter) is below the square root of the 97.5% chi-square quantile, times the truncation factor "
     "when corrections are on. Each of the two steps is applied exactly when requested.",
     "all values of one cell of the data, all four switch combinations, both MCD algorithms",
     "tests use the default switches on one data set and a loose tolerance",
     [CV + "mcd.py"], [("post processing", CV + "mcd.py calculate_covariance"), ("rescaling", CV + "mcd.py _correct_covariance")],
     over=("inputs", "configurations"))
prop("C15", "OGK follows the published orthogonalised estimator",
     "The OGK location and scatter equal the Maronna-Zamar construction with the requested location and scale functions "
     "and number of iterations: columns standardised by their scale, robust correlations from the scales of sums and "
     "differences, projection on the eigenvectors, squared scales of the projections, and back-transformation; with "
     "reweighting they are the mean and covariance of exactly the observations below the documented cutoff for beta.",
     "all values of one coordinate, every shift of concrete samples, several iteration counts and estimator pairs",
     "tests use the defaults on one data set",
     [CV + "ogk.py"], [("OGK", CV + "ogk.py OGK.calculate_covariance")], over=("inputs", "configurations"))
prop("C16", "Wrapping transformation and the covariance built on it",
     "Wrapping applies the published psi function with the given constants to the standardised values of each column, "
     "keeps columns with zero MAD finite, optionally rescales to unit variance, and leaves the input unchanged. The "
     "wrapping covariance is the classical covariance (and correlation) of the wrapped data, and follows shifts and "
     "positive rescalings of the columns.",
     "all values of one cell over all branches of psi, several constants, every shift and scale of concrete samples",
     "tests use the default constants on one data set without zero-MAD columns",
     ["robpy/preprocessing/utils.py", CV + "wrapping.py"],
     [("wrapping_transformation", "robpy/preprocessing/utils.py wrapping_transformation"), ("covariance", CV + "wrapping.py WrappingCovariance")],
     over=("inputs", "configurations"))
prop("C17", "Covariance fitting contract",
     "Fitting a multivariate estimator stores the estimated scatter, its inverse as precision and the estimated location; the "
     "stored robust distances use the robust, the classical distances the classical location and scatter. Missing or "
     "infinite cells and one-dimensional input are rejected with ValueError, covariance is unavailable (NotFittedError) "
     "before fitting, data with a single variable give a finite positive 1x1 scatter, and the input is unchanged.",
     "all values of one or two cells, every position of a missing or infinite cell, every multivariate estimator",
     "tests check one estimator on one data set and never a single variable or a missing cell",
     [CV + "base.py"], [("fit", CV + "base.py RobustCovariance.fit")])
prop("C21", "Kendall scatter combines tau correlations with Qn scales",
     "The Kendall estimator's correlations are Kendall's tau-b of every pair of columns with unit diagonal, and the "
     "covariances are these correlations times the two Qn scales, symmetric, for all orderings and ties.",
     "all values of one coordinate, shifts and scales of concrete samples",
     "tests compare one random sample",
     [CV + "kendall.py"], [("KendallTau", CV + "kendall.py KendallTau.calculate_covariance")])
RG = "robpy/regression/"
prop("C22", "FastLTS keeps the best C-step optimum of its starts",
     "The raw LTS fit is least squares on exactly h = max(int(n alpha), int((n+p+1)/2)) observations, a further C-step does "
     "not lower its objective, and no start has a smaller objective, neither after its initial C-steps nor (for the kept "
     "starts) at convergence. The raw scale is the corrected root mean square residual of the subset; with reweighting the "
     "model and scale are those of the observations within the 98.75% normal cutoff of the consistent robust scale. "
     "Every start draws p+1 distinct observations.",
     "all values of one response or feature value, every shift of concrete samples, several alpha, starts and kept models",
     "tests compare coefficients of one data set with a stored value; optimality over the starts is never checked",
     [RG + "lts.py"], [("C-steps and selection", RG + "lts.py FastLTSRegression.fit"),
                       ("C-step", RG + "lts.py FastLTSRegression._apply_C_step")], over=("inputs", "configurations"))
prop("C23", "LTS scale correction factors equal the published corrections",
     "The small-sample correction factors of the raw and the reweighted LTS scale equal the published Pison-Van Aelst-"
     "Willems interpolation for every alpha in [0.5, 1], sample size and dimension (continuous at 0.875, one at alpha = 1) "
     "and reject every alpha outside this interval with ValueError; the consistency factor makes the trimmed standard "
     "deviation consistent at the normal and equals one without trimming.",
     "all real alpha, grid of sample sizes and dimensions", "tests check no value of the factors",
     [RG + "lts.py"], [("raw", RG + "lts.py get_correction_factor"), ("reweighted", RG + "lts.py get_correction_factor_reweighting")],
     over=("inputs", "configurations"))
prop("C24", "Robust regression withstands outliers and finds exact fits",
     "When at least h observations lie exactly on a plane and one start draws from them only, LTS (and MM from LTS) returns "
     "that plane with zero scale, whatever the other observations are. A gross vertical outlier or bad leverage point of "
     "any size leaves the coefficients and scale of LTS, S and MM close to those of the bulk, and the size of a vertical "
     "outlier has no influence.",
     "all values of the outlying responses or features up to one million", "tests contaminate one sample with fixed outliers",
     [RG + "lts.py", RG + "s.py", RG + "mm.py"], [("LTS", RG + "lts.py FastLTSRegression.fit"), ("S", RG + "s.py SRegression.fit"),
                                                ("MM", RG + "mm.py MMRegression.fit")])
prop("C25", "S-regression solves its estimating equations",
     "The S-estimate's scale is the M-scale of its residuals, the coefficients solve the weighted normal equations with the "
     "weights of the loss at this scale (with or without intercept), and none of the requested starts (each of distinct "
     "observations) has a smaller M-scale; more starts never give a larger scale. The starts with the smallest scales after the "
     "requested number of initial steps are the ones carried to convergence, and the best of them is returned. Predictions are linear in the features "
     "for one row, several rows, frames and constant features, and unavailable before fitting.",
     "every positive rescaling of the responses of concrete samples, all sizes of an outlier, all points of prediction",
     "tests compare one simulated data set with the true coefficients",
     [RG + "s.py", "robpy/utils/rho.py"], [("S-estimation", RG + "s.py SRegression.fit"), ("I-step", RG + "s.py SRegression._i_step")],
     over=("inputs", "configurations"))
prop("C26", "MM-regression keeps the initial scale and solves its M-equations",
     "MM regression keeps the scale of its initial estimate; every reweighting step is weighted least squares (including the "
     "intercept) with the weights psi(u)/u of the given loss, observations with zero residual having weight one; at "
     "convergence the coefficients solve the weighted normal equations. Any robust regression can be the initial estimator; "
     "with zero initial scale its exact fit is returned.",
     "all values of one response or feature value per step, every shift and rescaling of concrete samples to convergence",
     "tests compare one simulated data set with stored coefficients",
     [RG + "mm.py"], [("M-steps", RG + "mm.py MMRegression.fit")], over=("inputs", "configurations"))
prop("C27", "Regression equivariance",
     "Adding a linear function of the features (or a constant) to the responses adds it to the predictions of LTS, S and MM "
     "regression and leaves the scale; multiplying the responses by a positive factor multiplies predictions and scale.",
     "every shift, slope multiple and positive factor in the bounds, concrete samples with outliers",
     "no equivariance test exists for the regressions",
     [RG + "lts.py", RG + "s.py", RG + "mm.py"], [("LTS", RG + "lts.py FastLTSRegression.fit"), ("S", RG + "s.py SRegression.fit"),
                                                ("MM", RG + "mm.py MMRegression.fit")])
prop("C28", "Outlier map data",
     "The outlier map of a fitted regression returns the residuals, the residuals divided by their MAD (or standard "
     "deviation), the robust MCD-based (or classical) distances of the features, the residual threshold and the chi-square "
     "leverage threshold for the requested percentile, also for a single feature, and leaves its input unchanged.",
     "all values of one response or feature value, all switches and several thresholds",
     "tests only check that a figure is drawn for one data set",
     [RG + "base.py"], [("outlier_map", RG + "base.py RobustRegression.outlier_map")], over=("inputs", "configurations"))
UT = "robpy/utils/"
prop("C38", "The spatial median minimises the sum of distances",
     "The L1 (spatial) median is, up to its convergence tolerance, a point with minimal sum of Euclidean distances to the "
     "observations: zero is a subgradient there. This also holds when iterates or the mean coincide with observations, "
     "when observations coincide or are collinear; it follows shifts and rescalings of the data, does not depend on the "
     "order of the observations and leaves the data unchanged.",
     "every shift and rescaling of concrete configurations, iterated to convergence", "no test covers the function itself",
     [UT + "median.py"], [("l1median", UT + "median.py l1median")])
PP = "robpy/preprocessing/"
prop("C29", "Robust power transformation follows its formulas and can be undone",
     "The Box-Cox and Yeo-Johnson transformations (with or without standardization) follow their formulas for every lambda, "
     "are increasing, and the inverse undoes them; values beyond the range of the transformation are clipped to just inside "
     "before being transformed back. The fit standardizes once, estimates lambda by reweighted maximum likelihood from the "
     "robust initial value with a changepoint of either sign, standardizes the transformed values by the reweighted mean and "
     "standard deviation, does not change its parameters, treats integers as the same floats and rejects values that are "
     "not positive for Box-Cox; 'auto' takes the method with the lower criterion anew for every data set.",
     "every lambda in [-4, 6], all points to transform; every shift and rescaling of concrete samples for the fits",
     "tests transform one data set per method", [PP + "transfo.py"],
     [("fit", PP + "transfo.py RobustPowerTransformer.fit"), ("transform", PP + "transfo.py RobustPowerTransformer.transform"),
      ("inverse", PP + "transfo.py RobustPowerTransformer.inverse_transform")], over=("inputs", "configurations"))
prop("C30", "RobustScaler centers and scales every column by its own estimates",
     "The robust scaler subtracts each column's own location (if centering) and divides by its own scale (if scaling) for "
     "arrays, frames and single columns and for every estimator; its inverse undoes this for all points, missing training "
     "values are rejected with ValueError or ignored as requested, refitting replaces the former fit, scalers do not share "
     "estimators, and the data stay unchanged.",
     "all values of fitted cells and of all points to transform, all estimators and switches",
     "tests compare one frame and the default estimator", [PP + "scaling.py"],
     [("fit", PP + "scaling.py RobustScaler.fit"), ("transform", PP + "scaling.py RobustScaler.transform"),
      ("inverse", PP + "scaling.py RobustScaler.inverse_transform")], over=("inputs", "configurations"))
prop("C31", "DataCleaner drops exactly the unusable columns and rows",
     "The data cleaner drops exactly the columns that are not numeric, row numbers, discrete (at most min_unique_values "
     "values), of zero scale (MAD at most min_abs_scale) or missing in at least the given share of the training data, and "
     "the rows of the transformed data with at least the given share of missing values (in the requested order); everything "
     "kept is unchanged with infinite cells missing, the reasons reported are the true ones, and a second fit or transform "
     "leaves no trace of earlier data.",
     "all values of free cells, every threshold in [0, 1], every minimal scale, patterns of missing and infinite cells",
     "tests use one frame and default thresholds", [PP + "data_cleaner.py"],
     [("fit", PP + "data_cleaner.py DataCleaner.fit"), ("transform", PP + "data_cleaner.py DataCleaner.transform")],
     over=("inputs", "configurations"))
prop("C34", "Stahel-Donoho outlyingness is the largest over its random directions",
     "The Stahel-Donoho outlyingness of every observation is the largest absolute robust z-score (median and MAD) over the "
     "requested number of different random directions, each through two distinct observations or orthogonal to a hyperplane "
     "through p distinct observations; it is never NaN, infinite only off the centre of a direction without spread, the "
     "same for the same seed, and the data stay unchanged.",
     "all values of one coordinate, every shift and rescaling of concrete samples, a grid of seeds, duplicates and ties",
     "no test checks a value of the outlyingness", [UT + "outlyingness.py"],
     [("stahel_donoho", UT + "outlyingness.py stahel_donoho")], over=("inputs", "configurations"))
prop("C35", "Robust PCA: subspace, projections, distances and explained variance",
     "Scores of a fitted robust PCA are the centered data times orthonormal components, projections are orthogonal onto the "
     "centered subspace, and the outlier map's score and orthogonal distances and cutoffs follow their formulas. Spherical "
     "PCA takes the spatial median and the leading eigenvectors of the spatial sign covariance in order of the squared MAD "
     "of the scores; ROBPCA takes as many components as the requested share needs, computes location and components from "
     "the observations close to the subspace (optionally their MCD), finds the line of data on a line, and rejects an alpha outside [0.5, 1].",
     "all points projected; every shift and rescaling of concrete samples for the fits, several numbers of components",
     "tests compare loadings of one data set with stored numbers", ["robpy/pca/base.py", "robpy/pca/spca.py", "robpy/pca/robpca.py"],
     [("projection", "robpy/pca/base.py RobustPCA.project"), ("spherical PCA", "robpy/pca/spca.py PCALocantore.fit"),
      ("ROBPCA", "robpy/pca/robpca.py ROBPCA.fit")], over=("inputs", "configurations"))
prop("C32", "DDC fits the published detecting-deviating-cells algorithm",
     "The fitted DDC standardizes columns by one-step M-estimates, correlates and regresses on each other the cells that are "
     "not outlying by themselves, predicts every cell by the deshrunk weighted mean of the predictions from the columns "
     "correlated at least min_correlation, and flags cells and rows beyond the chi-square cutoff. All of this follows shifts and rescalings of "
     "columns, does not depend on the size of a gross cell (but for its own residual), is repeated by predicting the "
     "training data and leaves the data unchanged, with missing and infinite cells.",
     "every shift and rescaling of columns of concrete samples, every minimal correlation, one gross cell of any size",
     "tests compare the flags of one small frame", ["robpy/outliers/ddc.py", U + "onestep_m.py"],
     [("fit", "robpy/outliers/ddc.py DDC.fit")], over=("inputs", "configurations"))
prop("C33", "DDC predicts, flags and imputes new rows with the fitted model",
     "On new data DDC predicts every cell from the other cells of its row only (never from itself or other rows) with the "
     "fitted location, scale, correlations and slopes, flags cells and rows beyond the cutoff, and imputes exactly the "
     "missing, infinite and (if requested) flagged cells with their predictions, keeping all other cells, labels and the "
     "input unchanged. Predicting or imputing before fitting or with another number of columns, and fitting columns with at "
     "most three different values, raise ValueError.",
     "all values of one or two cells of new rows, patterns of missing and infinite cells, several quantiles and correlations",
     "tests compare two rows with stored values", ["robpy/outliers/ddc.py"],
     [("predict", "robpy/outliers/ddc.py DDC.predict"), ("impute", "robpy/outliers/ddc.py DDC.impute")], over=("inputs", "configurations"),
     note="Imputed values are compared to the three decimals the code rounds to.")
CM = "robpy/covariance/cellmcd.py"
CU = "robpy/covariance/utils/cellmcd_utils.py"
prop("C18", "CellMCD C-steps flag the cheapest cells, update and never go uphill",
     "A C-step of CellMCD flags, column by column starting with the one with most flagged cells, exactly the cells whose squared "
     "conditional residual plus log variance reaches the cutoff of the requested quantile, but keeps at least the h = "
     "alpha*n cheapest ones; it then updates location and scatter by the conditional expectations of the flagged cells. Steps are repeated until the scatter "
     "changes by less than the tolerance, the limit of steps, or the objective would increase (that step is undone). Columns with too "
     "many outlying or missing cells and too few rows are rejected with ValueError, and arguments are not modified.",
     "every value of one or two cells, every pattern of flags tried, every tolerance, free cutoffs",
     "tests compare one data set with stored numbers of R", [CM],
     [("flags", CM + " CellMCD._update_W"), ("C-step", CM + " CellMCD._C_step"), ("iterations", CM + " CellMCD._C_steps_until_convergence"),
      ("data checks", CM + " CellMCD._check_data")], over=("inputs", "configurations"))
prop("C19", "CellMCD predicts and imputes cells by their conditional distribution",
     "Given location and scatter, CellMCD's prediction of every cell is its conditional mean given the other kept cells of its "
     "row, with the conditional standard deviation, for every pattern of flags including empty rows; after a fit the imputed data "
     "equal the data in kept cells and the predictions in flagged and missing cells (also for integer data), residuals are the "
     "standardized differences rescaled per column, missing cells are flagged without a residual, and the data stay unchanged.",
     "all data and locations for concrete scatters, a free correlation, every pattern of flags for p<=4; whole fits with a far cell",
     "tests compare one data set with stored numbers of R", [CM],
     [("predictions", CM + " CellMCD._make_predictions"), ("fit", CM + " CellMCD.calculate_covariance")], over=("inputs", "configurations"))
prop("C20", "CellMCD objective is the observed likelihood of the kept cells",
     "The objective of CellMCD equals minus twice the Gaussian log-likelihood of the kept cells of every row: log determinant and "
     "Mahalanobis distance of the kept block plus the constant per kept cell, for every pattern of flags; flagged or missing cells have no influence.",
     "all data, locations and a free correlation for every pattern of flags, p<=4",
     "tests check one value", [CU], [("objective", CU + " objective_function")], over=("inputs", "configurations"))
prop("C40", "CellMCD as a whole: follows units and resists gross cells",
     "A CellMCD fit standardizes the columns robustly, starts from the initial DDCW estimate, sets cells beyond 3 missing, iterates "
     "C-steps, and returns location, scatter, flags, predictions, residuals and imputed data in the units of the data. They follow every "
     "shift and rescaling of the columns, and the size of a gross cell has no influence on anything but its own residual.",
     "every shift of two columns and rescaling of one, one gross cell of any size, several settings, concrete samples",
     "tests compare one data set with stored numbers of R", [CM, "robpy/covariance/initial_ddcw.py"],
     [("fit", CM + " CellMCD.calculate_covariance")], over=("inputs", "configurations"))
IW = "robpy/covariance/initial_ddcw.py"
prop("C41", "InitialDDCW: wrapped scatter of the data imputed by DDC",
     "The initial estimate imputes missing cells and the cells DDC flags (at most the fraction 1-alpha per column, the most outlying ones) "
     "with their predictions, computes the wrapped scatter of rows not outlying along principal axes with eigenvalues above the "
     "bound, deletes outlying cases and repeats; it follows shifts and rescalings of the columns, also for integer and collinear data, "
     "does not depend on the size of a gross cell, returns the matching precision, and rejects alpha outside [0.5, 1] with ValueError.",
     "every shift and rescaling of columns, every alpha, one gross cell of any size, concrete samples",
     "only tested through CellMCD on one data set", [IW],
     [("fit", IW + " InitialDDCW.calculate_covariance")], over=("inputs", "configurations"),
     note="DDC itself is the subject of C32; the reference starts from the fitted DDC.")
CV0, VZ = "robpy/covariance/base.py", "robpy/covariance/utils/cellmcd_visualization_utils.py"
prop("C39", "Diagnostic plots draw the documented points, cutoffs and labels",
     "The cellMCD plots draw, for the chosen variable and plot type, the residuals, observations or predictions of every case, cutoffs at the "
     "chi-square quantile (times the robust scale around the robust location of the drawn variable), exactly the names of the cases beyond the "
     "annotation cutoff at their points, and a tolerance ellipse of that quantile; the distance-distance plot, outlier maps, adjusted boxplot "
     "(with its fliers) and DDC cell map likewise draw the quantities they document; unfitted models are refused.",
     "every value of one or two drawn cells, every plot type, several quantiles, pairs and selections",
     "tests only check that a figure is produced for one data set",
     [CM, VZ, CV0, "robpy/outliers/ddc.py", RG + "base.py", "robpy/pca/base.py", U + "adjusted_boxplot.py"],
     [("cell_MCD_plot", CM + " CellMCD.cell_MCD_plot"), ("annotations, ellipse, thresholds", VZ), ("distance_distance_plot", CV0 + " RobustCovariance.distance_distance_plot"),
      ("cellmap", "robpy/outliers/ddc.py DDC.cellmap")], over=("inputs", "configurations"))
prop("C42", "Affine and order equivariance of the multivariate estimators",
     "FastMCD follows every nonsingular affine change of the data; DetMCD, OGK, Kendall and wrapping scatter follow shifts and factors of either "
     "sign of each variable; LTS, S and MM predictions do not depend on the affine coordinates of the features; PCA and the spatial median follow "
     "rotations and reflections. Exchanging variables or reflecting them exchanges or reflects the results, also for CellMCD, InitialDDCW and DDC "
     "with missing cells, and the deterministic estimators do not depend on the order of the cases.",
     "every factor, shear and shift in the bounds, free shifts or cells of concrete samples, several permutations",
     "no test transforms the data and compares",
     [CV + "mcd.py", CV + "ogk.py", CV + "kendall.py", CV + "wrapping.py", CM, IW, "robpy/outliers/ddc.py", "robpy/pca/robpca.py", "robpy/pca/spca.py",
      "robpy/utils/median.py", RG + "lts.py", RG + "s.py", RG + "mm.py"],
     [("covariance", CV + "mcd.py FastMCD.fit"), ("regression", RG + "lts.py FastLTSRegression.fit"), ("PCA", "robpy/pca/robpca.py ROBPCA.fit")],
     over=("inputs", "configurations"))
prop("C43", "DetMCD searches from the six published initial estimates",
     "DetMCD returns the subset of smallest determinant reached by C-steps from the six initial estimates of Hubert, Rousseeuw and Verdonck (2012): "
     "hyperbolic tangent correlation, rank correlation, normal scores correlation, spatial sign covariance, covariance of the central half and OGK of the "
     "data standardized by medians and Qn scales, each turned into a location and scatter by Qn scales along its eigenvectors.",
     "every shift of the data and every factor of either sign of a variable; samples on which one of the six estimates alone leads to the best subset, each in turn",
     "no test knows which initial estimate the result came from: losing or damaging one of them only makes the fit worse on some data",
     [CV + "mcd.py", CV + "ogk.py"],
     [("initial estimates", CV + "mcd.py DetMCD._get_initial_best_subsets")],
     over=("inputs",))
prop("C36", "No hidden state: refits, clones and other instances",
     "What a fitted estimator gives depends only on its settings and the data of its last fit: refitting an estimator that was fitted before "
     "(on data of another size or dimension) equals fitting a fresh one, a scikit-learn clone equals a new estimator with the same settings, "
     "fitting another instance (also one sharing default arguments) leaves it alone, predicting or transforming changes nothing, and a fit "
     "changes neither the constructor's settings nor the data.",
     "one free shift or cell of concrete samples, histories of two or three fits, for every estimator class",
     "tests fit each estimator once", ["robpy/univariate/base.py", "robpy/covariance/base.py", "robpy/covariance/mcd.py", "robpy/covariance/cellmcd.py",
      "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/regression/mm.py", "robpy/pca/robpca.py", "robpy/pca/spca.py",
      "robpy/preprocessing/scaling.py", "robpy/preprocessing/transfo.py", "robpy/preprocessing/data_cleaner.py", "robpy/outliers/ddc.py"],
     [("fit", "robpy/*/*.py fit methods"), ("shared default arguments", "robpy/regression/mm.py MMRegression.__init__")],
     over=("inputs", "histories"),
     note="The attribute n_components of the PCA classes, which is documented to be set by fit when it is None, is given explicitly.")
prop("C37", "Seeded randomness: same data and seed, same result",
     "With a given seed (0 included) or the default seed of the regression estimators, every randomised estimator (FastMCD, LTS, S, MM, "
     "ROBPCA with its final MCD, Stahel-Donoho outlyingness) gives the same result on the same data whatever the state of NumPy's global "
     "generator; no estimator reads or changes that global state.",
     "one free shift or scale of concrete samples, several seeds and global states, for every estimator class",
     "tests fix one seed and compare with stored numbers", ["robpy/covariance/mcd.py", "robpy/regression/lts.py", "robpy/regression/s.py",
      "robpy/pca/robpca.py", "robpy/utils/outlyingness.py"],
     [("generator", "robpy/covariance/mcd.py FastMCD.calculate_covariance"), ("initial subsets", "robpy/regression/lts.py FastLTSRegression._get_initial_model"),
      ("initial subsets", "robpy/regression/s.py SRegression._get_initial_models"), ("seed of the final MCD", "robpy/pca/robpca.py ROBPCA.fit")],
     over=("inputs", "configurations", "histories"))
