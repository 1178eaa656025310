From faf63856320db7b1cb61399376655d94fd9eb86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/29] fix: accumulate repeated products of a reaction (test
 the product's own gain entry, not the last reactant's)

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..41aaedb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From 85e58334f3ec51bd22c2107e061e4a19b563df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 02/29] fix: parse only a leading number as the stoichiometric
 coefficient (2NO2, 0.5C2H5O2, '2 NO2')

---
 Parse_eqn_file.py | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41aaedb..d5488f4 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -140,9 +140,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
         equation_full=re.sub('\t','',equation_full)
         equation=equation_full.split(':',1)[0].split('=',1) #split the line into reactants and products
         reactants=equation[0].split('+') # extract content to the left of the previous split [reactants]
-        reactants= [x.strip(' ') for x in reactants] #strip away all whitespace
+        reactants = [''.join(x.split()) for x in reactants] #strip away all whitespace
         products=equation[1].split('+') # extract content to the right of the previous split [products]
-        products = [x.strip(' ') for x in products] #strip away all whitespace
+        products = [''.join(x.split()) for x in products] #strip away all whitespace
         #pdb.set_trace()
         #At the moment, we have not seperated the reactant/product from its stochiometric value
         ##rate_full=equation_full.split(':',1)[1].rsplit('\t',1)[1].split(';',1)[0] #pulls out the rate 
@@ -182,7 +182,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             # - Extract stochiometry and unique reactant identifier
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
             try: #Now try to extract a stochiometric coefficient if given
-                temp=re.findall(r"[-+]?\d*\.\d+|\d+|\d+",reactant) #This extracts all numbers either side 
+                temp=re.findall(r"^(?:\d+\.?\d*|\.\d+)",reactant) #This extracts the number in front 
                                                                    #of some text. 
                 stoich=temp[0] #This selects the first number extracted, if any.
                 # Now need to work out if this value is before the variable
@@ -194,17 +194,6 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                         stoich=float(stoich)
                     else:
                         stoich=1.0
-                elif len(temp)>1:
-                    #If this is the case, we need to ensure the reactant extraction is unique. For example
-                    #If the string is '2NO2' the above procedure extracts 'NO' as the unique reactant. 
-                    #We therefore need to ensure that the reactant is 'NO2'. To do this we cut the value
-                    #in temp[0] away from the original string. Lets assume that we can attach the first
-                    #part of the text with the second number in temp. Thus
-                    if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
-                        stoich=float(stoich)
-                    else:
-                        stoich=1.0
             except:
                 stoich=1.0
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
@@ -239,7 +228,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
 		            # - Extract stochiometry and unique product identifier
 		            #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
                     try: #Now try to extract a stochiometric coefficient if given
-                        temp=re.findall(r"[-+]?\d*\.\d+|\d+|\d+",product) #This extracts all numbers either side 
+                        temp=re.findall(r"^(?:\d+\.?\d*|\.\d+)",product) #This extracts the number in front 
                         #of some text. 
                         stoich=temp[0] #This selects the first number extracted, if any.
                         # Now need to work out if this value is before the variable
@@ -251,17 +240,6 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-                        elif len(temp)>1:
-                            #If this is the case, we need to ensure the reactant extraction is unique. For example
-                            #If the string is '2NO2' the above procedure extracts 'NO' as the unique reactant. 
-                            #We therefore need to ensure that the reactant is 'NO2'. To do this we cut the value
-                            #in temp[0] away from the original string. Lets assume that we can attach the first
-                            #part of the text with the second number in temp. Thus
-                            if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
-                                stoich=float(stoich)
-                            else:
-                                stoich=1.0
                     except:
                         stoich=1.0
                     #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
-- 
2.43.0


From 26b22f9be633b4e91ea2ce4505135aeed1f7afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 03/29] fix: a reactant written twice (HO2 + HO2) enters the
 rate law once, squared, not to the fourth power

---
 Parse_eqn_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d5488f4..d4219bd 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -201,8 +201,14 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
             #Now store the stoichiometry and reactant in dictionaries
             if reactant not in ['hv']:
-                stoich_dict[equation_step][reactant_step]=stoich
-                rate_dict_reactants[equation_step][reactant_step]=reactant 
+                # A reactant written more than once [e.g. HO2 + HO2] is one reactant with the summed stochiometry
+                for step, name in rate_dict_reactants[equation_step].items():
+                    if name == reactant:
+                        stoich_dict[equation_step][step]+=stoich
+                        break
+                else:
+                    stoich_dict[equation_step][reactant_step]=stoich
+                    rate_dict_reactants[equation_step][reactant_step]=reactant 
                 # -- Update species dictionaries --
                 if reactant not in species_dict.values(): #check to see if entry already exists
                     species_dict[species_step]=reactant # useful for checking all parsed species
-- 
2.43.0


From 43c1cde5d3834d927ec97e083ab80852f8029611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 04/29] fix: sparse loss/gain matrix keeps the loss of a
 species that a reaction both consumes and produces

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d4219bd..5d47e44 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2385,10 +2385,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From f86cac49076314595c1d6053971ee1a26b4dfd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 05/29] fix: Fortran loss/gain uses the stoichiometric
 coefficient itself, not coefficient+1

---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 5d47e44..848b6a8 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2585,13 +2585,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2608,13 +2608,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From b3ca783aa75d3f8f096ea854405ca7b0bcf707b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/29] fix: Jacobian entries carry the species' own
 stoichiometry and non-integer orders, and fit Fortran's line length

---
 Parse_eqn_file.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 848b6a8..18902c2 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2770,7 +2770,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 1: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2809,12 +2809,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('-%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2835,6 +2835,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            # The reaction changes this specie by its own stochiometry
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2843,7 +2846,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 1: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2885,12 +2888,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('+%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2911,6 +2914,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            # The reaction changes this specie by its own stochiometry
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
@@ -3073,12 +3079,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('-%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3099,6 +3105,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            # The reaction changes this specie by its own stochiometry
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3149,12 +3158,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('+%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3175,6 +3184,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            # The reaction changes this specie by its own stochiometry
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
-- 
2.43.0


From 34e2d1473840976d012ec25495d5b1c23be246fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 07/29] fix: apply every math function translation to a rate
 expression, not only the last of the list

---
 rate_coeff_conversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..8093b3a 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -161,8 +162,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -264,8 +266,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From 1e0d59fd24bde9a055732ef9b9c1d1055e652816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 08/29] fix: unsigned D exponents (2.0D0, 1.0D12) are
 translated for the Python and Numba rate expressions

---
 rate_coeff_conversion.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 8093b3a..94ab70b 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -73,7 +73,17 @@ def convert_rate_mcm(rate_dict):
         ('EXP','numpy.exp')
         ]
     map_list=[('D-','E-'),
-        ('D+','E+')
+        ('D+','E+'),
+        ('D0','E+0'),
+        ('D1','E+1'),
+        ('D2','E+2'),
+        ('D3','E+3'),
+        ('D4','E+4'),
+        ('D5','E+5'),
+        ('D6','E+6'),
+        ('D7','E+7'),
+        ('D8','E+8'),
+        ('D9','E+9'),
         ]
 
     afterText = ['numpy.abs','numpy.sqrt','numpy.log','numpy.exp']
@@ -147,6 +157,7 @@ def convert_rate_mcm_numba(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
-- 
2.43.0


From a5f47e23f863c544d5acdcfc718e5ea94f8f017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 09/29] fix: plain Python rate expressions keep their
 parentheses, only photolysis references become J[n]

---
 rate_coeff_conversion.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 94ab70b..1426216 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -86,7 +86,6 @@ def convert_rate_mcm(rate_dict):
         ('D9','E+9'),
         ]
 
-    afterText = ['numpy.abs','numpy.sqrt','numpy.log','numpy.exp']
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
@@ -96,24 +95,15 @@ def convert_rate_mcm(rate_dict):
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-        #Replace all () with [] in the first instance
-        temp_text=temp_text.replace('(','[').replace(')',']')
-
-        #Now deal with replacing generic () with [] unless it is a numpy command
-        #Find the first occurance of [ and replace back to ) if numpy command
-        searchText1 = '['
-        searchText2 = ']'
+        #Replace () with [] where associated with J for photolysis rates; other brackets stay as they are
         temp_text_list=list(temp_text)
-        for substr in afterText:
-            try:
-                after_index = temp_text.index(substr)
-                index1=temp_text.find(searchText1, after_index)
-                index2=temp_text.find(searchText2, after_index)
-                temp_text_list[index1]='('
-                temp_text_list[index2]=')'
-            except:
-                pass
-            temp_text=''.join(temp_text_list)
+        index1=temp_text.find('J(')
+        while index1 != -1:
+            index2=temp_text.find(')', index1)
+            temp_text_list[index1+1]='['
+            temp_text_list[index2]=']'
+            index1=temp_text.find('J(', index2)
+        temp_text=''.join(temp_text_list)
     
         #new_rate_full.append(temp_text)
         #if print_options==1:
-- 
2.43.0


From 2b13f1f98eab9bfdb47844fbf42418668da1ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 10/29] fix: rate expressions longer than a Fortran source line
 are continued instead of truncated

---
 Parse_eqn_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 18902c2..95a6a25 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1744,7 +1744,10 @@ def write_rate_file_fortran(filename,rate_dict_fortran,openMP):
             f.write('!$OMP END SINGLE NOWAIT \n') 
             f.write('!$OMP SINGLE \n') 
         #pdb.set_trace()
-        f.write('    rate_values(%s) =%s \n' %(key+1,rate_dict_fortran[key])) 
+        # Fortran lines hold 132 characters, so continue longer expressions
+        expression=rate_dict_fortran[key]
+        expression='&\n    &'.join(expression[i:i+100] for i in range(0,len(expression),100))
+        f.write('    rate_values(%s) =%s \n' %(key+1,expression)) 
         check_step+=1
     if openMP is True:
         f.write('!$OMP END SINGLE NOWAIT \n') 
-- 
2.43.0


From feaedd764361fa39c65a571c133d85ce56e0a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 11/29] fix: photolysis rates of the plain Python evaluator are
 zero at night, not nan

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 95a6a25..fd8c6f2 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -731,6 +731,7 @@ def write_rate_file(filename,rate_dict):
     f.write('    cosld = numpy.cos(lat)*numpy.cos(dec)\n') 
     f.write('    cosx = (numpy.cos(lha)*cosld)+sinld\n') 
     f.write('    cosx = numpy.cos(theta)\n') 
+    f.write('    cosx = max(cosx,0.0) # sun below the horizon: no photolysis\n') 
     f.write('    secx = 1.0E+0/(cosx+1.0E-30)\n') 
 
     f.write('    # Data taken from photolysis.txt. Calculations done in the form of:\n') 
-- 
2.43.0


From 44e0404fd4059ff25340c25f2e4be21ce47421fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 12/29] fix: Fortran rate expressions keep double precision
 constants (1.90D-12 was rewritten to single, products of them underflow)

---
 rate_coeff_conversion.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 1426216..c445b50 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -249,18 +249,7 @@ def convert_rate_mcm_fortran(rate_dict):
         ('dsqrt','SQRT'),
         ('dlog','LOG')
         ]
-    map_list=[('D-','E-'),
-        ('D+','E+'),
-        ('D1','E+1'),
-        ('D2','E+2'),
-        ('D3','E+3'),
-        ('D4','E+4'),
-        ('D5','E+5'),
-        ('D6','E+6'),
-        ('D7','E+7'),
-        ('D8','E+8'),
-        ('D9','E+9'),
-        ]
+    #The D exponents stay as they are: they make Fortran constants double precision
         
     afterText = ['ABS','SQRT','LOG','EXP']
 
@@ -270,8 +259,6 @@ def convert_rate_mcm_fortran(rate_dict):
         temp_text=rate_full
         for operation in math_list:
             temp_text=temp_text.replace(operation[0],operation[1])
-        for syntax in map_list:
-            temp_text=temp_text.replace(syntax[0],syntax[1])
 
         temp_text_list=list(temp_text)
         #indices= []
-- 
2.43.0


From e7bea3011e7809a26394f67a71349983b77a3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 13/29] fix: ten peroxy radicals (e.g. HOCH2CO3, MXYOLO2) were
 misspelt in the RO2 list and never counted in total RO2

---
 Parse_eqn_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index fd8c6f2..fc9cb54 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1774,7 +1774,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
@@ -1794,25 +1794,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1823,7 +1823,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1840,13 +1840,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1859,7 +1859,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0


From 69691f6f44e83c0774ba1546a0d7d0993dbdf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 14/29] fix: a mechanism without peroxy radicals saves an
 integer (usable) empty RO2 index list

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index fc9cb54..0df9ce3 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2112,7 +2112,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices,dtype=int)) # integers also when there are no RO2
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From 030f9642c3eda4c9ae5358c73c2ef9077efabd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 15/29] fix: time of day continues across batches instead of
 restarting at start_time in each one

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 2 +-
 Aerosol/f2py/ODE_solver.py                        | 2 +-
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..263676f 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -72,7 +72,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # the solver time t restarts at 0 in every batch
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..be7e7f6 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # the solver time t restarts at 0 in every batch
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..ff56fc2 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -80,7 +80,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         #pdb.set_trace()
         #Here we use the pre-created Numba based functions to arrive at our value for dydt
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # the solver time t restarts at 0 in every batch
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -153,7 +153,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # the solver time t restarts at 0 in every batch
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..2aed084 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # the solver time t restarts at 0 in every batch
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -110,7 +110,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here 
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # the solver time t restarts at 0 in every batch
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
-- 
2.43.0


From 94f78f4cc945ed5344eaf0adbb09d75923b4f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 16/29] fix: drivers run exactly
 ceil(simulation_time/batch_step) batches (no crash when batches do not divide
 the run, or by rounding)

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 4 ++--
 Aerosol/f2py/ODE_solver.py                        | 4 ++--
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 263676f..bc6b8f4 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step-1.0e-9)) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index be7e7f6..427f76d 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step-1.0e-9)) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/ODE_solver.py b/ODE_solver.py
index ff56fc2..489f3af 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step-1.0e-9)) # Just cycling through 3 steps to get to a solution
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 2aed084..41e0096 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step-1.0e-9)) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
-- 
2.43.0


From ac2698638883dda053d8d6d2ab56bf9ac27d1001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 17/29] fix: partitioning loop keeps its slice bounds private
 and reduces the water total (data race between size bins)

---
 Parse_eqn_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 0df9ce3..823a934 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3517,6 +3517,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    INTEGER(8), PARAMETER :: num_species_condensed = %s \n'%(num_species_condensed))   
     f.write('    !Set all output variables to 0 \n') 
     f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
     f.write('    Cstar_i_m_t(:)=0.0D0 \n') 
@@ -3538,8 +3539,9 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-- 
2.43.0


From d47aeecfc7623811a813adc115c25c52151be095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 18/29] fix: compare the species name H2O by value, not
 identity, when setting initial concentrations

---
 Aerosol/f2py/ODE_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 427f76d..d1e7e3c 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -213,9 +213,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
-- 
2.43.0


From cdb8babf55bd00f77435e71f0602fcfed66386f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 19/29] fix: aerosol drivers store SOA mass and sizes of the
 batch's final state, not of the solver's last right-hand side call

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 1 +
 Aerosol/f2py/ODE_solver.py                        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index bc6b8f4..7df1d17 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -250,6 +250,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         exp_sim.maxncf = 1000
         #Sets the parameters        
         t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        dydt_func(t_output[-1],y_output[-1,:]) # the solver's last call need not be at the final state: refresh the diagnostics stored below
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index d1e7e3c..5df712f 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -290,6 +290,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.maxncf = 1000
         #Sets the parameters        
         t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        dydt_func(t_output[-1],y_output[-1,:]) # the solver's last call need not be at the final state: refresh the diagnostics stored below
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
-- 
2.43.0


From 3205a79d657315a6f00664a2b3da1c3a7cfa2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 20/29] fix: a species without a SMILES entry no longer takes
 the structure of the previous species

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 823a934..bf23de6 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -326,6 +326,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue # without this the species would be given the structure of the previous one
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From 2a6a6c3530c25084c456390524aa39d085b313b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:36 +0000
Subject: [PATCH 21/29] fix: rate converters work on a copy, so one backend's
 conversion does not spoil the parsed rates for another

---
 rate_coeff_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index c445b50..5bd497c 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -87,6 +87,7 @@ def convert_rate_mcm(rate_dict):
         ]
 
     new_rate_full=[]
+    rate_dict=dict(rate_dict) # convert a copy: the parsed expressions are needed unchanged by other converters
     for equation_step, rate_full in rate_dict.items():
         
         temp_text=rate_full
@@ -161,6 +162,7 @@ def convert_rate_mcm_numba(rate_dict):
 
     afterText = ['numba_abs','numba_sqrt','numba_log','numba_exp']
     new_rate_full=[]
+    rate_dict=dict(rate_dict) # convert a copy: the parsed expressions are needed unchanged by other converters
     for equation_step, rate_full in rate_dict.items():
         
         temp_text=rate_full
@@ -254,6 +256,7 @@ def convert_rate_mcm_fortran(rate_dict):
     afterText = ['ABS','SQRT','LOG','EXP']
 
     new_rate_full=[]
+    rate_dict=dict(rate_dict) # convert a copy: the parsed expressions are needed unchanged by other converters
     for equation_step, rate_full in rate_dict.items():
         
         temp_text=rate_full
-- 
2.43.0


From bc160e0dfbff15c26ecd2bd00e82b55dab99837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:36 +0000
Subject: [PATCH 22/29] fix: Gas_simulation_f2py removes the pickles of an
 earlier mechanism, which would be reused with this one's compiled modules

---
 f2py/Gas_simulation_f2py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/f2py/Gas_simulation_f2py.py b/f2py/Gas_simulation_f2py.py
index f0f80ef..9752c81 100644
--- a/f2py/Gas_simulation_f2py.py
+++ b/f2py/Gas_simulation_f2py.py
@@ -103,6 +103,8 @@ if __name__=='__main__':
             #    os.remove(fname)
             if ".f90" in fname:
                 os.remove(fname)
+            if ".pickle" in fname: # an earlier mechanism's, which no longer matches the modules compiled below
+                os.remove(fname)
             if ".eqn.txt" in fname:
                 os.remove(fname)
 
-- 
2.43.0


From e4400e8f503d572c42083cb714a234310d7612ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 23/29] fix: aerosol programs can be rerun with files_exist
 (missing equations file, Pybel objects that cannot be pickled or looked up)

---
 Aerosol/f2py/Aerosol_simulation_f2py.py             |  8 ++++----
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 12 ++++--------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..24c3300 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -200,8 +200,8 @@ if __name__=='__main__':
             pickle.dump(species_dict2array, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_species_dict.pickle', 'wb') as handle:
             pickle.dump(species_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
-        with open(filename+'_Pybel_object_dict.pickle', 'wb') as handle:
-            pickle.dump(Pybel_object_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_SMILES_dict.pickle', 'wb') as handle:
             pickle.dump(SMILES_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict1.pickle', 'wb') as handle:
@@ -263,10 +263,10 @@ if __name__=='__main__':
             species_dict = pickle.load(f) 
         with open(filename+'_equations.pickle', 'rb') as f:
             equations = pickle.load(f) 
-        with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
-            Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
             SMILES_dict= pickle.load(f) 
+        # Pybel objects cannot be pickled: make them again
+        Pybel_object_dict={smiles: pybel.readstring('smi',smiles) for smiles in SMILES_dict.values()}
         #with open(filename+'_property_dict1.pickle', 'rb') as f:
         #    property_dict1= pickle.load(f) 
         #with open(filename+'_property_dict2.pickle', 'rb') as f:
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..0fcf768 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -182,8 +182,6 @@ if __name__=='__main__':
             pickle.dump(species_dict2array, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_species_dict.pickle', 'wb') as handle:
             pickle.dump(species_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
-        with open(filename+'_Pybel_object_dict.pickle', 'wb') as handle:
-            pickle.dump(Pybel_object_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_SMILES_dict.pickle', 'wb') as handle:
             pickle.dump(SMILES_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict1.pickle', 'wb') as handle:
@@ -193,7 +191,7 @@ if __name__=='__main__':
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'concentration_dict.pickle', 'wb') as handle:
-            pickle.dump(concentration_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
+            pickle.dump({smiles: concentration_dict[Pybel_object_dict[smiles]] for smiles in SMILES_dict.values()}, handle, protocol=pickle.HIGHEST_PROTOCOL)
         
         # Generate some static Fortran libraries for use in ODE solver
         # Here you have the option to use OpenMP for spreading caclualtions across available cores
@@ -210,12 +208,10 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
-        with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
-            Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
             SMILES_dict= pickle.load(f) 
+        # Pybel objects cannot be pickled: make them again
+        Pybel_object_dict={smiles: pybel.readstring('smi',smiles) for smiles in SMILES_dict.values()}
         #with open(filename+'_property_dict1.pickle', 'rb') as f:
         #    property_dict1= pickle.load(f) 
         #with open(filename+'_property_dict2.pickle', 'rb') as f:
@@ -223,7 +219,7 @@ if __name__=='__main__':
         with open(filename+'_num_species_gas.pickle', 'rb') as f:
             num_species= pickle.load(f) 
         with open(filename+'concentration_dict.pickle', 'rb') as f:
-            concentration_dict= pickle.load(f) 
+            concentration_dict= {Pybel_object_dict[smiles]: value for smiles, value in pickle.load(f).items()}
             
         print("Calculating properties that dictate gas-to-particle partitioning")
         property_dict1=Property_calculation.Pure_component1(num_species,species_dict,
-- 
2.43.0


From 8df84b1d9e092d8c8fbdfa807bb01864f92208c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 24/29] fix: compounds without a structure are left out of the
 property arrays also when no volatility cut-off is used

---
 Aerosol/f2py/Aerosol_simulation_f2py.py             | 2 +-
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index 24c3300..6e549a9 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -292,7 +292,7 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
+    if len(include_index) < num_species: # Remove those comounds for which there is no vapour pressure data OR are too volatile
         y_density_array=numpy.array(y_density_array)[include_index].tolist()
         y_mw=numpy.array(y_mw)[include_index].tolist()
         sat_vp=numpy.array(sat_vp)[include_index].tolist()
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index 0fcf768..e8e4dcc 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -239,7 +239,7 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
+    if len(include_index) < num_species: # Remove those comounds for which there is no vapour pressure data OR are too volatile
         y_density_array=numpy.array(y_density_array)[include_index].tolist()
         y_mw=numpy.array(y_mw)[include_index].tolist()
         sat_vp=numpy.array(sat_vp)[include_index].tolist()
-- 
2.43.0


From cc2c9a077af09119367f983c0ba411c7ee4d60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 25/29] fix: a reaction driven by light alone (hv = X) proceeds
 at its rate instead of being left out of the reactant products

---
 Parse_eqn_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index bf23de6..ba7b74b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2217,6 +2217,8 @@ def write_reactants_indices(filename,equations,num_species,species_dict2array,ra
                         f.write('*y[%s]'%(species_dict2array[reactant]))
                     else:
                         f.write('*y[%s]**%s'%(species_dict2array[reactant],stoich))
+        if step==0: # no reactant apart from light: the rate does not depend on any concentration
+            f.write('    reactants_conc[%s]=1.0'%(equation_step))
         f.write('\n')
     f.write('    return reactants_conc \n') 
     f.close()  
@@ -2335,6 +2337,8 @@ def write_reactants_indices_fortran(filename,equations,species_dict2array,rate_d
                         f.write('*y(%s)'%(species_dict2array[reactant]+1))
                     else:
                         f.write('*y(%s)**%s'%(species_dict2array[reactant]+1,stoich))
+        if step==0: # no reactant apart from light: the rate does not depend on any concentration
+            f.write('    reactants_conc(%s)=1.0D0'%(equation_step+1))
         f.write('\n')
     if openMP is True:
         f.write('!$OMP END SINGLE NOWAIT\n') 
-- 
2.43.0


From 682d2fa132c278c318095fdfaab365f23accca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:40 +0000
Subject: [PATCH 26/29] fix: Fortran loss/gain and Jacobian statements with
 long coefficients exceeded the source line length and did not compile

---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index ba7b74b..a06da61 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2586,7 +2586,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                 if species in loss_dict.keys():
                     loss_step=0
                     for equation_step, stoich in loss_dict[species].items():
-                        if flag > 4:
+                        if flag > 2:
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
@@ -2609,7 +2609,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                     gain_step=0
                             
                     for equation_step, stoich in gain_dict[species].items():
-                        if flag > 4:
+                        if flag > 2:
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
@@ -2779,7 +2779,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 1: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2855,7 +2855,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 1: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
-- 
2.43.0


From 46404763457aff12d41d82dd74b41b2fa17244ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 27/29] fix: write_partitioning_section_fortran emitted a
 kernel that did not compile (undeclared SOA array) and shared scalars between
 the threads of its loop over bins

---
 Parse_eqn_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index a06da61..67741cb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3293,6 +3293,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('                              Correction, Kn, dm_dt,& \n')
     f.write('                              k_i_m_t_part1, k_i_m_t \n') 
     f.write('    REAL(8), dimension(%s,%s) :: dy_dt_gas_matrix \n'%(num_species,num_bins))
+    f.write('    REAL(8), dimension(%s) :: total_SOA_mass_array \n'%(num_bins))
     f.write('    REAL(8) total_moles, density, diameter, radius, water_moles  \n')
     f.write('    REAL(8), dimension(%s) :: Pressure_eq, Cstar_i_m_t \n'%(num_species)) 
     f.write('    REAL(8), dimension(%s) :: kelvin_factor,y_mole_fractions  \n'%(num_species))
@@ -3306,6 +3307,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('\n')     
     f.write('    !Set all output variables to 0 \n') 
     f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
     f.write('    Cstar_i_m_t(:)=0.0D0 \n') 
@@ -3326,12 +3328,13 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array) \n') 
+    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \n') 
     f.write('    DO size_step=1,%s \n'%(num_bins)) 
     f.write('\n')     	
     f.write('        ! 1) Select a slice of y that represents this size bin \n') 
@@ -3346,7 +3349,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('        density_array(1:num_species)=density_input(1:num_species)\n') 
     f.write('        density_array(num_species+1)=core_density_array(size_step)\n') 
     f.write('\n')     	
-    f.write('        total_SOA_mass=total_SOA_mass+SUM(mass_array(1:num_species-1))\n') 
+    f.write('        total_SOA_mass_array(size_step)=SUM(mass_array(1:num_species-1))\n') 
     f.write('        total_water_cond_mass=total_water_cond_mass+mass_array(num_species)\n') 
     f.write('        aw_array(size_step)=temp_array(num_species)/total_moles  \n')     	
     f.write('        total_mass=SUM(mass_array(:))\n') 
@@ -3416,6 +3419,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    ENDDO \n') 
     f.write('!$OMP END PARALLEL DO \n') 
     f.write('   dy_dt(1:num_species)=dy_dt(1:num_species)-SUM(dy_dt_gas_matrix, DIM=2)  \n')
+    f.write('   total_SOA_mass=SUM(total_SOA_mass_array)*(1.0D12)  \n')
     f.write('\n')    		    
     f.write('end subroutine \n') 
     f.close()  
-- 
2.43.0


From cb6affb50fa42b952d9d267f231b144d2deab0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 28/29] fix: Plotting.py could not be imported (a function
 without a body) and stopped in the debugger after each figure

---
 Plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Plotting.py b/Plotting.py
index c6bbeac..6e78043 100644
--- a/Plotting.py
+++ b/Plotting.py
@@ -73,13 +73,13 @@ def stacked_bar(time,y_matrix,num_species, num_bins,molw_asnumpy,NA):
                 ax.bar(bar_locations, y_norm_matrix[org,:],bottom=np.array(y_cummulative[0,:]),color=c)
     
         plt.title('SOA mass = {:.2f}'.format(np.sum(np.sum(y_abs_matrix))))
-        fig.show()
-        pdb.set_trace()
+        plt.show() # waits until the figure is closed
         plt.close(fig)
     
 def gas_phase_evolution():
     # This function plots the evolving concentration [in pbb] of gas phase species according to a given model output
     # The species to plot are provided by the users and colours selected by Matplotlib
+    raise NotImplementedError("gas_phase_evolution is not written yet")
     
 #def gas_phase():
 #    #This function plots the change in gas phase concentrations over time
\ No newline at end of file
-- 
2.43.0


From 163f7430a36e7a219d27665e71402d9acaa0789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 29/29] fix: the fixed-yield composition plot is drawn also
 when compounds are left out of the condensed phase

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 7df1d17..38960ae 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -297,7 +297,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     #In a future release I will add this as a seperate module
     if with_plots:
         try:
-            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw[include_index]),NA)
+            # y_mw already holds the condensing compounds only; drop the gas columns stacked_bar does not count
+            Plotting.stacked_bar(t_array,y_matrix[:,num_species-num_species_condensed:],num_species_condensed,num_bins,numpy.array(y_mw),NA)
         except:
             print("There is a problem using Matplotlib in your environment. If using this within a docker container, you will need to transfer the data to the host or configure your container to enable graphical displays. More information can be found at http://wiki.ros.org/docker/Tutorials/GUI ")
         
\ No newline at end of file
-- 
2.43.0

