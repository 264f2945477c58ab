prop='C08'
needs='residual function raises numpy.linalg.LinAlgError at a geometry-improving step'
breaks='the try block of the geometry step also covers the evaluation of the objective, so a LinAlgError of the user function is reported as a singular model (or triggers a restart) and the solver goes on'
edits=[('dfols/controller.py','''        except LA.LinAlgError:
            exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix encountered in geometry step")
            return exit_info  # didn't fix geometry - return & quit

        gopt, H = self.model.build_full_model()  # save here, to calculate predicted value from geometry step
        objopt = self.model.objopt()  # again, evaluate now, before model.change_point()
        d = xnew - self.model.xopt()
        x = self.model.as_absolute_coordinates(xnew)
        rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
''','''
            gopt, H = self.model.build_full_model()  # save here, to calculate predicted value from geometry step
            objopt = self.model.objopt()  # again, evaluate now, before model.change_point()
            d = xnew - self.model.xopt()
            x = self.model.as_absolute_coordinates(xnew)
            rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
        except LA.LinAlgError:
            exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix encountered in geometry step")
            return exit_info  # didn't fix geometry - return & quit
''')]
demo='''
f0 = lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]])
for at in range(1, 60):
    k = [0]
    def f(x):
        k[0] += 1
        if k[0] == at:
            raise np.linalg.LinAlgError('mine')
        return f0(x)
    try:
        s = dfols.solve(f, np.array([-1.2, 1.0]), maxfun=80)
    except np.linalg.LinAlgError as e:
        expect(str(e) == 'mine', e)
        expect(k[0] == at, (k[0], at))
        continue
    expect(k[0] < at, ('exception swallowed at call', at, k[0]))
'''
