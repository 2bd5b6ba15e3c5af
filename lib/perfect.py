"""The value of a perfect forecast for the statistics that can be compared by it."""
ZERO = ('POFD FAR ESTDEV MAE MSE BCMSE BCRMSE RMSE E10 E25 E50 E75 E90 EIQR MAD ME2 ME VL1L2_MSE VL1L2_RMSE VL1L2_RMSVE PSTD_BRIER PSTD_RELIABILITY '
        'NBR_FBS VL1L2_SPEED_ERR NBR_POFD NBR_FAR ECNT_ME ECNT_RMSE CRPS ECNT_CRPS ECNT_MAE ECNT_MAE_OERR ECNT_ME_GE_OBS ECNT_ME_LT_OBS').split()
ONE = ('ACC FBIAS PODY PODN CSI GSS HK HSS ORSS EDS SEDS EDI SEDI BAGSS PR_CORR SP_CORR KT_CORR MBIAS ANOM_CORR ANOM_CORR_RAW VL1L2_BIAS VL1L2_CORR PSTD_BSS '
       'PSTD_BSS_SMPL NBR_FSS NBR_AFSS VAL1L2_ANOM_CORR NBR_ACC NBR_FBIAS NBR_PODY PSTD_ROC_AUC NBR_PODN NBR_CSI NBR_GSS NBR_HK NBR_HSS ECNT_BIAS_RATIO').split()
NONE = ('BASER FMEAN FBAR FSTDEV OBAR OSTDEV FRANK_TIES ORANK_TIES RANKS VL1L2_FBAR VL1L2_OBAR VL1L2_FSTDEV VL1L2_OSTDEV VL1L2_FOSTDEV PSTD_BASER '
        'PSTD_RESOLUTION PSTD_UNCERTAINTY NBR_UFSS NBR_F_RATE NBR_O_RATE NBR_BASER NBR_FMEAN').split()
