"""writes properties.jsonl and MANIFEST.json (run by hand)

    python3-vt meta.py
"""
import json
import os

import registry

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [
            {'name': n, 'where': w} for n, w in mech]}))



M = 'metadetect/'

prop('C01', 'Positions are sheared about the image centre in sky coordinates',
     'Mapping pixel positions from the unsheared to the sheared image (or '
     'back) multiplies their sky offset from the image centre, where the '
     'offset is taken with the WCS of the image, by the distortion matrix of '
     'the shear with the given step (or by its inverse). The two directions '
     'undo each other, the image centre is fixed, no shear is the identity, '
     'and the forms taking an observation agree with those taking a WCS and '
     'dimensions.',
     ['inputs'], 'all positions, image shapes, invertible affine WCS, shear '
     'types and steps',
     'Every sheared catalogue is cut out at these positions; a sign, axis or '
     'centre error shows only for particular WCS (rotated, flipped, sheared) '
     'and off-diagonal shears, and the stable tests do not call this code.',
     [M + 'shearpos.py'],
     [('shear and unshear of positions', M + 'shearpos.py'),
      ('shear of catalogue positions', M + 'shearpos.py: *_obs')])

prop('C02', 'Hole masks mark exactly the hole pixels, as bits or apodization',
     'The bit mask made for a list of circular holes holds the given bit '
     'exactly in pixels whose centre is strictly inside a hole (row is y, '
     'column is x), and zero elsewhere. The apodization mask for the same '
     'holes is one outside of them, goes smoothly as the documented kernel of '
     'the distance to the edge inside and is the product over the holes. With '
     'symmetrization every image rotated by 90 degrees is masked as well, so '
     'that the bit mask is invariant under taking the union and the '
     'apodization the product of the original and the rotated one.',
     ['inputs'], 'all hole centres, radii (also off the image and covering '
     'it), image shapes, bits and apodization scales',
     'Boundary pixels, holes off the image and non-square images are not '
     'sampled, and none of the stable tests reach this code.',
     [M + 'masking.py'],
     [('hole bit mask', M + 'masking.py: make_foreground_bmask'),
      ('hole apodization', M + 'masking.py: '
       'make_foreground_apodization_mask')])

prop('C03', 'Mask corrections update every plane of every observation alike',
     'Applying an edge apodization, a hole apodization or a hole '
     'interpolation to a multi-band, multi-epoch set of observations changes '
     'the image, noise, weight, bit mask, bits-or mask and masked fraction of '
     'every observation as documented: apodization multiplies image and '
     'noise, masks what it touches and marks those bits and full masked '
     'fraction; interpolation replaces image and noise in the holes, zeroes '
     'the weight there and marks them. Pixels away from the corrected area '
     'keep all their values exactly.',
     ['inputs', 'configurations'], 'all pixel values, weights and existing '
     'bits, any number of bands and epochs, with or without the optional '
     'planes and expansion',
     'The planes must change together in each pixel for each band and epoch; '
     'tests sample one image set and none of the stable tests reach it.',
     [M + 'masking.py', M + 'interpolate.py'],
     [('edge apodization', M + 'masking.py: apply_apodization_corrections'),
      ('hole apodization', M + 'masking.py: apply_foreground_masking_'
       'corrections'),
      ('hole interpolation', M + 'masking.py')])

prop('C04', 'Interpolation replaces exactly the masked pixels',
     'Interpolating an image at a mask returns a new image equal to the input '
     'in all unmasked pixels, with every masked pixel replaced by the '
     'interpolant through the unmasked pixels within the buffer of a masked '
     'pixel (values at masked pixels, even nan, have no influence); the input '
     'is not modified. Masked pixels with no unmasked neighbour are, when '
     'filling is asked for, replaced by independent noise of the scale given '
     'by the weight and take part in the interpolation, and nothing is '
     'returned when too much of the image is masked.',
     ['inputs'], 'all masks, pixel values, buffers and maximum fractions',
     'The result depends on the mask geometry; the two stable tests use one '
     'mask each and one image size.',
     [M + 'interpolate.py'],
     [('interpolation at a mask', M + 'interpolate.py: '
       'interpolate_image_at_mask')])

prop('C05', 'Cutouts are the aligned window around each object, padded',
     'Every cutout of an object (image, weight, segmentation, bit mask, noise) holds the pixels of a square window of its box size, the same in all planes and bands: it starts half a box minus one before the pixel of the object, or at the image edge if that is outside, and pixels beyond the image hold the default value of the plane. The recorded start and end, the centre within the cutout and the WCS agree with that window for any position, also when the window leaves or misses the image. Cutouts are copies, and asking for an unknown plane is an error.',
     ['inputs'], 'all object positions on and near the image, stamp sizes, '
     'pixel values and WCS',
     'Off-by-one and row/column errors show for objects at particular edges '
     'or on non-square images only; no stable test makes cutouts.',
     [M + 'detect.py'],
     [('cutouts', M + 'detect.py: MEDSInterface'),
      ('clipped boxes', M + 'detect.py: _get_clipped_boxes'),
      ('catalog of windows', M + 'detect.py: CatalogMEDSifier')])

prop('C06', 'Detection runs on the weighted multi-band mean and skips flags',
     'The image detection runs on is the mean of the bands weighted with the median of the positive weights of each band, and its noise is the inverse root of the sum of these weights. Exactly the pixels holding any of the no-detection bits in any band are masked for the detection, bands without bit mask mask nothing. The configured threshold, kernel and settings (or the defaults if there are none) are handed on, and neither the observations nor the configuration are modified.',
     ['inputs'], 'all pixels, weights (zero included), bits and numbers of '
     'bands',
     'The masked set is a combination of bits, bands and weights in each '
     'pixel; no stable test detects.',
     [M + 'detect.py'],
     [('detection image', M + 'detect.py: MEDSifier._set_detim / _set_cat')])

prop('C07', 'Stamp sizes cover the object and come from the allowed sizes',
     'The stamp size of a detection is its extent (twice the radius with configured minimum, factor and padding, or the larger of its bounding box and the size by half light radius, factor and ellipticity, by box type), limited to the configured smallest and largest size and rounded up to the next allowed FFT-friendly size. There is one catalogue entry per detection in the same order, with its radius in sky units. An unknown box type is an error.',
     ['inputs', 'configurations'], 'all radii and extents',
     'The rounding is piecewise: a wrong boundary shows only for particular '
     'radii.',
     [M + 'detect.py'],
     [('box sizes', M + 'detect.py: MEDSifier._get_box_sizes')])

prop('C08', 'Moments averaged over bands use the band weights throughout',
     'Sizes, shapes, fluxes and their errors of a moment measurement come '
     'from the moment sums averaged over the shear bands with the median '
     'positive weight of each band (covariances with its square), so that '
     'they do not depend on the order of the bands or on a common factor of '
     'the weights. PSF sums are averaged with the same weights times the flux '
     'of the object in the band, the size ratio is that of the reported '
     'sizes, and each band keeps its own flux.',
     ['inputs'], 'all moment sums, weights and choices of shear bands',
     'The shear estimate is a ratio of weighted sums; a wrong weight or a '
     'missing square leaves plausible numbers. No stable test fits.',
     [M + 'fitting.py'],
     [('weighted average', M + 'fitting.py: fit_mbobs_wavg'),
      ('combination of bands', M + 'fitting.py: '
       '_combine_fit_results_wavg'),
      ('regularisation', M + 'fitting.py: _make_mom_res_and_flag / fwhm_reg')])

prop('C09', 'A failed measurement is flagged and has no values',
     'If a band that is needed is missing, repeated, without weight, touches '
     'an edge bit or its fit fails or is unphysical, the row of the object is '
     'flagged with the documented bit, and flags are zero only if all the '
     'parts that go into the values (object, size, PSF, band fluxes, with and '
     'without regularisation) succeeded. Sizes, shapes and fluxes that could '
     'not be measured are NaN. The measurement of an object does not raise '
     'because of bad data.',
     ['inputs', 'fault_sequences'], 'all weights, bits, band subsets and '
     'failures of the underlying fitters',
     'Each failure is one of many combinations of bands and parts; a value '
     'left behind unflagged biases the shear silently.',
     [M + 'fitting.py', M + 'procflags.py'],
     [('failure handling', M + 'fitting.py: fit_mbobs_wavg / fit_mbobs_gauss '
       '/ fit_mbobs_admom'),
      ('flags', M + 'procflags.py')])

prop('C10', 'Symmetrized weights are zero on rotations of bad pixels only',
     'Symmetrizing the weight of a stamp sets a pixel to zero exactly if one '
     'of the four rotations of the stamp by 90 degrees has no weight there, '
     'and leaves all other weights as they are. The result is symmetric in '
     'where it is zero and the input observation is not modified.',
     ['inputs'], 'all weight maps of square stamps',
     'One wrong or missing rotation shows for particular positions of the bad '
     'pixel only.',
     [M + 'fitting.py'],
     [('symmetrization', M + 'fitting.py: symmetrize_obs_weights')])

prop('C11', 'Coadding shear bands keeps the planes of an object consistent',
     'The coadd of the shear bands of an object is their mean weighted with '
     'the median positive weights, with noise, masked fraction and PSF '
     'averaged alike, bit masks combined by or, and a weight that is the '
     'inverse of the variance of that mean and zero where any band has none. '
     'A single band is used as it is. Bands that are missing, differ in '
     'shape, WCS or the planes they hold, or have no weight give flags and '
     'no coadd.',
     ['inputs', 'configurations'], 'all planes, weights and combinations of '
     'bands and optional planes',
     'Planes have to be combined each in its own way for each combination; '
     'no stable test coadds.',
     [M + 'fitting.py'],
     [('coadd', M + 'fitting.py: make_coadd_obs')])

prop('C12', 'Joint fits report what the fitter found for the right bands',
     'The joint gaussian fit is done on the shear bands (or their coadd) and '
     'the adaptive moments on the symmetrized coadd of them, and each column '
     'holds the value of the fit or NaN with a flag. Band fluxes are those of '
     'the same band, other bands have none, and PSF size and shape are the '
     'weighted averages over the bands that were fit.',
     ['inputs'], 'all results of the fitters, weights and band choices',
     'A swapped band or column gives plausible numbers; no stable test fits.',
     [M + 'fitting.py'],
     [('joint gaussian fit', M + 'fitting.py: fit_mbobs_gauss'),
      ('adaptive moments', M + 'fitting.py: fit_mbobs_admom')])

TECH = ('symbolic execution of the Python/numpy source into SMT (z3, cvc5), '
        'counterexamples replayed on the real code')

MD = M + 'metadetect.py'

prop('C13', 'Each detection gives one row with its position, bands and fits',
     'For each image type and each combination of shear bands the result has '
     'exactly one row per detection made on the detection bands, in order, '
     'with the detected position, that position mapped back to the unsheared '
     'image with the step of the metacal settings, the names of the shear and '
     'detection bands, and fits made on the images of that type for every '
     'band. A type without detections is None, every type asked for is '
     'there, and metacal runs once with the settings and random state given.',
     ['inputs', 'configurations'], 'all positions, numbers of detections in each '
     'type, band combinations, fitters',
     'Rows can be paired with the wrong object, type, band combination or '
     'step without any error; ordinary tests look at shapes of the result '
     'only, and the stable tests do not run the pipeline.',
     [MD, M + 'detect.py', M + 'fitting.py'],
     [('loop over types and bands', MD + ': Metadetect.go, _go_bands'),
      ('positions', MD + ': _add_positions_and_psf')])

prop('C14', 'Mask columns hold the bits around the position of the object',
     'bmask and ormask of a row are the bits set in any of the shear bands at '
     'the pixel nearest to the position (clipped to the image), or in the '
     'square of the configured mask region around it. The _noshear columns '
     'are the same at the unsheared position, and ormask_region replaces the '
     'region for ormask alone.',
     ['inputs', 'configurations'], 'all mask patterns, positions in or out of the '
     'image, regions',
     'Axis swaps, rounding, clipping and dropped bands show only for masks '
     'that are not uniform and positions near edges or pixel borders.',
     [MD],
     [('mask columns', MD + ': _fill_in_mask_col'),
      ('or over bands', MD + ': _get_ormask_and_bmask')])

prop('C15', 'Masked fractions are the weighted averages documented',
     'The masked fraction image is the mean over the shear bands weighted by '
     'the median positive weight, mfrac_img is its mean, and mfrac is its '
     'Gaussian weighted mean around the object over the pixels of the stamp '
     'inside of the image and within twice the aperture (of mfrac_fwhm, or '
     'else of the first fitter, or else 1.2). It is a fraction, 1 where there '
     'are no data or no stamp, 0 where nothing is masked, and the input '
     'images are not changed.',
     ['inputs', 'configurations'], 'all masked fractions, weights, positions, stamp '
     'sizes and apertures',
     'Tests compare a few flat images; mistakes in which pixels count, in '
     'the weights of the bands or in the aperture keep flat images right.',
     [M + 'mfrac.py', MD],
     [('average at positions', M + 'mfrac.py: measure_mfrac'),
      ('average over bands', MD + ': _get_mfrac')])

prop('C16', 'Original psf columns are the weighted means over shear bands',
     'psfrec_T and psfrec_g are the means of the psf sizes and shapes fit on '
     'the images before metacal over the shear bands of the row, weighted by '
     'the largest weight of each band. When a psf fit fails they are NaN and '
     'psfrec_flags is not zero, and the objects are still measured.',
     ['inputs', 'fault_sequences'], 'all psf shapes, weights, band combinations and '
     'failing fits',
     'Failures of psf fits and unequal weights do not happen in tests.',
     [MD], [('psf averages', MD + ': _get_psf_stats'),
            ('psf fits', M + 'fitting.py: fit_all_psfs')])

prop('C17', 'Results of several fitters are combined without mixing objects',
     'Combining the results of several fitters gives one row per object with '
     'every column of each fitter unchanged and one column of shear bands. '
     'Results with different numbers of objects or bands are refused with an '
     'error, a single result is returned as it is, and no results at all '
     'give None.',
     ['inputs'], 'all numbers of fitters and objects, missing results, values',
     'Tests combine a pair of good results; missing and inconsistent results '
     'are where rows get dropped or silently paired.',
     [M + 'fitting.py'], [('combination', M + 'fitting.py: combine_fit_res')])

prop('C18', 'Each object is measured on the images made for its colour',
     'With colour dependent images, each detection is measured (fluxes, '
     'masks, masked fraction, psf) on the images of the key that the key '
     'function gives for its fluxes, or on the original images for None. '
     'Metacal and psf fits are made at most once per colour used, failures '
     'of one colour affect only its objects, and rows stay in the order of '
     'detection.',
     ['inputs', 'fault_sequences', 'histories'], 'all assignments of colours to '
     'objects, failing colours, band combinations',
     'Wrong caching shows only when several objects, types and band '
     'combinations share colours in particular orders.',
     [MD], [('colours', MD + ': _go_bands_with_color'),
            ('cache of data', MD + ': _get_mbobs_data')])

prop('C19', 'Nothing is measured exactly when there is nothing to measure',
     'The result is None if and only if some band has no weight at all, some '
     'band is fully covered by the no-detect flags, every pixel is fully '
     'masked, or metacal fails. In the first three cases neither metacal nor '
     'detection runs, and otherwise a dict with all types is returned.',
     ['inputs', 'fault_sequences'], 'all weights, masks and masked fractions',
     'The conditions combine bands and pixels; tests have images that are '
     'either good or bad throughout.',
     [MD], [('early exits', MD + ': Metadetect.go')])

prop('C20', 'Settings are either honoured or refused with an error',
     'Giving both fitters and any of model, weight, symmetrize or coadd, an '
     'unknown model, only one of the two colour arguments, or colours with a '
     'first fitter without band fluxes is an error. Every other combination '
     'is accepted, and each fitter is run with its own model, weight function, '
     'symmetrization and coadding, with the bits to refuse and the weight type '
     'of the settings (for the images of a colour as well) and gives its '
     'columns. Asking for a result before it has run is an error.',
     ['configurations'], 'all combinations of settings and models',
     'There are too many combinations to list in tests.',
     [MD], [('settings', MD + ': Metadetect._set_fitter')])

prop('C21', 'Processing flags can be told apart, stored and described',
     'Processing flags are distinct single bits that fit in a 32 bit signed '
     'column and collide with no flag of ngmix, each has a distinct name that '
     'maps back to it, and the description of any flags lists exactly the '
     'names of the bits set.',
     ['inputs'], 'all flags and pairs of flags',
     'A collision hides one failure behind another in every catalogue and '
     'breaks no test.',
     [M + 'procflags.py'], [('flags and names', M + 'procflags.py')])


L = M + 'lsst/'

prop('C22', 'Settings override the defaults, nested, and unknown ones are refused',
     'The settings used are the defaults, replaced by the values sent, where '
     'nested settings replace only the entries sent, and a name or value that '
     'is not a setting is an error. The settings sent, the defaults and '
     'the settings of other runs are not changed.',
     ['configurations'], 'all combinations of settings sent',
     'State shared through the defaults shows only when two runs with '
     'different settings are made in one process.',
     [L + 'configs.py', L + 'defaults.py', L + 'util.py'],
     [('photometry settings', L + 'configs.py: get_config'),
      ('metadetect settings', L + 'util.py: override_config')])

prop('C23', 'Edges and bright objects of LSST exposures are apodized consistently',
     'Apodizing edges or bright objects multiplies the image and the noise '
     'image of all bands by the same apodization, sets the variance to '
     'infinity, the masked fraction to one and the named mask bits in the '
     'masks (and masks of or-ed bits) exactly where the apodization is less '
     'than one, and changes nothing elsewhere. Bright objects are '
     'circles about their sky position with their radius, in the coordinates '
     'of the exposure.',
     ['inputs'], 'all images, holes and image origins',
     'Planes of one band that are missed, or circles that are shifted by the '
     'image origin, leave a plausible image.',
     [L + 'masking.py'],
     [('edges', L + 'masking.py: apply_apodized_edge_masks_mbexp'),
      ('bright objects', L + 'masking.py: '
       'apply_apodized_bright_masks_mbexp')])

prop('C24', 'A row per detected child with its own position, masks and fits',
     'The catalogue has one row for each child source, with the position and '
     'sky position of that source (the peak when there is no centroid), the '
     'bits of the detection image at its peak without DETECTED, and the fits '
     'to its own stamp in the shear bands, with models of neighbours removed '
     'when there are any. Stamps that do not fit or without weight give flags '
     'and no measurement, other sources are not affected, and without sources '
     'there is no catalogue.',
     ['inputs', 'fault_sequences'],
     'all positions, masks, faults of stamps and lists of sources',
     'A row that mixes up sources or bands looks like any other.',
     [L + 'measure.py', L + 'mbobs_extractor.py', L + 'model_subtractor.py'],
     [('measurements', L + 'measure.py: measure'),
      ('positions and masks', L + 'measure.py: get_output, get_bmask')])

prop('C25', 'LSST ormask and mfrac columns describe the place of the object',
     'The masked fraction image is the mean over bands weighted by the inverse '
     'median of their positive finite variances (an error when a band has '
     'none, zero when none is given), the ormask is the union over bands, and '
     'each row gets the ormask at the pixel nearest to its position and the '
     'gaussian weighted mean of the masked fraction about it, within the '
     'image. No other columns and no inputs are changed.',
     ['inputs'], 'all masks, fractions, variances and positions',
     'Transposed or shifted positions give plausible values.',
     [L + 'metadetect.py'],
     [('images', L + 'metadetect.py: get_mfrac_mbexp, combine_ormasks'),
      ('columns', L + 'metadetect.py: add_mfrac, add_ormask')])

prop('C26', 'Metacal of exposures shears the deconvolved image and fixed noise',
     'For each shear type and band, the image is that of the exposure, '
     'deconvolved by its psf at the image centre, sheared by the shear of the '
     'type, and convolved by a round kernel dilated by 1+2*0.01, with '
     'size from the psf measurement of that band (or from the psf), plus the '
     'noise image treated likewise after a rotation by 90 degrees and rotated '
     'back. The variance is doubled, mask, WCS and filter are kept, the '
     'psf is the dilated kernel, and the input is not changed.',
     ['inputs'], 'all images, psf measurements, shear types and local WCS',
     'A shear missed for the noise, or a wrong band of psf measurement, '
     'biases the response of the whole survey and leaves plausible images.',
     [L + 'metacal_exposures.py'],
     [('images', L + 'metacal_exposures.py: get_metacal_exps'),
      ('fixed noise', L + 'metacal_exposures.py: '
       'get_metacal_mbexps_fixnoise')])

prop('C27', 'Exposures and observations are converted without loss or shift',
     'An observation made from an exposure has its pixels, mask, inverse '
     'variance (zero where there is none), the psf and the Jacobian at the '
     'integer centre of the image or at the source, with its origin relative '
     'to the corner of the exposure, and converting back gives the same '
     'pixels with infinite variance where there was no weight. Observations '
     'of sources have the inverse median variance as weight, fall back to the '
     'peak when there is no position, and a stamp without weight, a missing '
     'psf, or an even or not square psf is an error.',
     ['inputs'], 'all pixels, positions, image origins and local WCS',
     'A Jacobian at the wrong place or with exchanged axes still gives '
     'plausible shapes.',
     [L + 'util.py'],
     [('exp2obs, obs2exp, extract_obs, get_jacobian', L + 'util.py')])

prop('C28', 'Stamps hold the source with exactly the models of others removed',
     'Stamps are the odd box about the peak of a child source, the data in it '
     'are copied for all bands, and a box that does not fit in the image is '
     'an error unless clipping is asked for. With models, the data hold '
     'the original image minus all models, minus all models but one while that '
     'source is put back, and again minus all models afterwards also when an '
     'error occurs, and the original is never changed.',
     ['inputs', 'fault_sequences'], 'all images, models, peaks and sizes',
     'A model that is not removed again changes all stamps measured later.',
     [L + 'util.py', L + 'mbobs_extractor.py', L + 'model_subtractor.py'],
     [('boxes', L + 'util.py: get_bbox'),
      ('stamps of data', L + 'mbobs_extractor.py'),
      ('stamps with models removed', L + 'model_subtractor.py')])

prop('C29', 'The detection coadd is the weighted mean of the bands',
     'The coadd image and psf are the means of those of the bands weighted by '
     'the inverse median variance of their good pixels, with the psf at the '
     'image centre and normalized, the mask is the union, and the inverse '
     'variance is the sum over good pixels (infinite variance where there are '
     'none). Bands without good pixels do not count, no coadd is made '
     'when no band has weight, and the input is not changed.',
     ['inputs'], 'all pixels, variances, masks and psfs of up to 3 bands',
     'Weights that mix up bands or pixels leave a plausible detection image.',
     [L + 'util.py'],
     [('coadds', L + 'util.py: coadd_exposures, coadd_mbobs')])


prop('C30', 'LSST original psf columns are the weighted mean of the shear bands',
     'The psf of each band is fit at the centre of the image with the local '
     'WCS, the shape and size reported for all rows are the means over the '
     'shear bands with the weights of the bands, and all bands are kept for '
     'the reconvolution. A failure of any fit gives flags, no '
     'measurement and no per band values, and a shear band that does not '
     'exist is an error.',
     ['inputs', 'fault_sequences'],
     'all shapes, sizes, weights and failures of up to 3 bands',
     'A failed or wrong mean psf biases everything made from it.',
     [L + 'metadetect.py', L + 'util.py'],
     [('fits and means', L + 'metadetect.py: fit_original_psfs_mbexp'),
      ('columns', L + 'metadetect.py: add_original_psf'),
      ('shear bands', L + 'util.py: extract_shear_band_indices')])


prop('C31', 'Sky subtraction removes the sky of every iteration and keeps its sum',
     'Sky measurement and detection, at the threshold sent, alternate for the '
     'number of iterations asked for (by default two, and less than one is an '
     'error), in place for each band, with pixels of objects and defects '
     'ignored. The image is lowered by the sum of the skies measured, which is '
     'recorded as BGMEAN, and masks and variances stay. An error of the '
     'pipeline in one band ends the iterations of that band only, while other '
     'errors are passed on.',
     ['inputs', 'fault_sequences'],
     'all images, skies, thresholds and failing steps of up to 3 bands',
     'A sky that is subtracted twice or not at all biases all fluxes.',
     [L + 'skysub.py'],
     [('iterations', L + 'skysub.py: IterateDetectionSkySubTask.run'),
      ('bands', L + 'skysub.py: subtract_sky_mbexp')])


prop('C32', 'Neighbours are replaced by noise and the image is always restored',
     'While a noise replacer is active the pixels of all footprints hold '
     'noise, except those of the one source that is inserted, in every band, '
     'and everything else is as it was. On leaving, also by an error and when '
     'replacing fails for one band, the '
     'source is removed again and the image is restored. The noise image is '
     'white with the median of the variances over the pixels where image and '
     'variance are finite, if asked for with the Poisson noise of the signal '
     '(by the mean gain) taken out, and the input is not changed.',
     ['inputs', 'histories', 'fault_sequences'],
     'all images, variances and draws, errors while a source is inserted',
     'An image left with noise in place of sources corrupts all that follows.',
     [L + 'util.py'],
     [('replacers', L + 'util.py: ContextNoiseReplacer, MultibandNoiseReplacer, get_noise_replacer'),
      ('noise', L + 'util.py: get_noise_image')])


prop('C33', 'Multiband data hold exactly the pixels, psfs and wcs of their bands',
     'Exposures put together, copied or deconvolved keep for each band, in '
     'order, the pixels, variances, masks, place, wcs, filter and psf; a copy '
     'shares no pixels with what it was copied from and, if asked for, has '
     'zero images. The coadds of a set of bands give the exposures, noise and '
     'masked fractions with zero masks, and the masks they had as independent '
     'arrays.',
     ['inputs'], 'all pixels, variances and masks of up to 3 bands in any order',
     'Bands that are swapped or share memory give wrong images silently.',
     [L + 'util.py'],
     [('multiband data', L + 'util.py: get_mbexp, copy_mbexp, make_deconvolved_mbexp'),
      ('coadds of the bands', L + 'util.py: extract_multiband_coadd_data')])

prop('C34', 'Psf images are drawn at the object and trimmed around their centre',
     'The psf image is drawn once, at the position sent, and comes back '
     'as the largest square around its central pixel, with the pixels it had, '
     'or unchanged when it is square already. Images that can not be centred '
     'are refused, a psf that can not be computed is missing data, and other '
     'errors are passed on.',
     ['inputs', 'fault_sequences'], 'all pixels, shapes up to 7x7 and positions',
     'A psf that is off centre by a pixel shifts the reconvolution kernel.',
     [L + 'util.py'],
     [('trimming', L + 'util.py: trim_odd_image'),
      ('psf images', L + 'util.py: extract_psf_image, _extract_psf_image_fix')])


prop('C35', 'LSST detection uses the coadd of all bands, threshold and deblender sent',
     'Sources are detected with the threshold sent (stdev units, positive, '
     'no background, bad planes excluded) on the coadd of all bands, or on the '
     'band itself when there is one, in single precision, and are deblended by '
     'the deblender asked for, with models and per band deconvolutions for '
     'scarlet. When no coadd can be made or nothing is detected, there are no '
     'sources and nothing is deblended. Input exposures and settings are not '
     'changed.',
     ['inputs', 'configurations'],
     'all pixels, variances, psfs and thresholds of up to 3 bands',
     'Detection on one band, or at another threshold, changes the sample '
     'silently and breaks the shear response.',
     [L + 'measure.py'],
     [('detection', L + 'measure.py: DetectAndDeblendTask.run'),
      ('settings', L + 'measure.py: get_detect_and_deblend_task')])


prop('C36', 'LSST metadetection detects and measures on each sheared image',
     'The result has an entry for each shear asked for, whose objects are '
     'detected, deblended and measured on the images of that shear alone (made '
     'from the input with the fixed noise), and None where nothing is found. '
     'Threshold, deblender, stamp size, weight function, shear bands, '
     'reconvolution and sky subtraction are those asked for, and each row has '
     'its own position, the mask bits and masked fraction of the input there, '
     'and the original psf. A failed psf fit sets flags and is replaced by the '
     'other reconvolution, and noise, masks and settings are not changed.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all pixels, masks, psfs, skies and draws, psf failures and empty shears',
     'A catalog of the wrong sheared image removes the shear response without '
     'any error.',
     [L + 'metadetect.py'],
     [('all of it', L + 'metadetect.py: run_metadetect, MetadetectTask.run'),
      ('one shear', L + 'metadetect.py: detect_deblend_and_measure')])

prop('C37', 'LSST photometry measures the images as they are, with the settings sent',
     'Objects are detected, deblended and measured on the input images, with '
     'the sky subtracted if asked for and without any shear, using the '
     'threshold, deblender, stamp size, weight function and shear bands sent. '
     'Each row has the mask bits, masked fraction and original psf of the '
     'input, failed psf fits set flags only, and the result is None when '
     'nothing is found.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all pixels, masks, psfs and skies, psf failures and empty images',
     'Settings that are ignored give plausible catalogs of something else.',
     [L + 'photometry.py'],
     [('all of it', L + 'photometry.py: run_photometry')])


prop('C38', 'A run leaves what it is given as it was and can be repeated',
     'Running metadetect changes no image, weight, mask, noise or masked '
     'fraction of the observations it is given (those of the colours '
     'included), nor their psf images and Jacobians, nor the settings and '
     'lists of bands. A second run on the same observations and settings, '
     'with the fits, psf fits, detections and metacal giving the same, has '
     'the same result in every column. No random numbers but those of the '
     'random state sent are used.',
     ['inputs', 'configurations', 'histories'],
     'all pixels, weights, masks, psf fits, models, combinations of bands and '
     'colours',
     'Observations are shared by many calls; if one run changed them or the '
     'settings the results would depend on the order of the calls.',
     [M + 'metadetect.py', M + 'fitting.py', M + 'detect.py'],
     [('all of it', M + 'metadetect.py: do_metadetect'),
      ('settings', M + 'metadetect.py: _set_config')])


if __name__ == '__main__':
    have = [p for p in P if p['id'] in registry.PROPS]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3-vt -c "import z3, cvc5, numpy"',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
            'thorough_cmd':
                'python3-vt check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': TECH,
            'level': 'model_checking',
            'level_note': 'holds for every value within: %s. Outside of the '
            'bounds nothing is claimed. Trusts: %s' % (
                registry.PROPS[p['id']]['bounds'], '; '.join(
                    registry.COMMON_ASSUMPTIONS
                    + registry.PROPS[p['id']]['assumptions'])),
        } for p in have],
        'not_applicable': [],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
